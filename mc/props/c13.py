"""Parameter bounds."""
import itertools
import logging
import os
import shutil

import numpy as np
from mc.core import Enum, Bfs, require
from getdist import MCSamples, chains, loadMCSamples
from getdist.parampriors import ParamBounds

logging.disable(logging.CRITICAL)
chains.print_load_details = False

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = ('bounds: BFS over set range (each side none/N/number/string/infinite)/set fixed/save and load/load over existing/load a hand-written file, three parameters including a name longer than its column, '
        'against a dictionary of sides; samples: every pair of side settings for two of three parameters x where they come from (dictionary, list, ParamBounds, ranges file, settings, all_limits), '
        'directly and after saving and reloading')
ASSUMPTIONS = ['bounds have at most 8 significant digits, as written to files']

LONG = 'a_parameter_with_a_name_longer_than_any_column'
NAMES = ['p', 'q', LONG]
SIDES = [None, 'N', '-inf', 'inf', 0, -1.5, '2', 3e-12, -1.2345678e30]


def val(x):
    return float(x) if x in ('inf', '-inf') else x


def new_state():
    st = type('S', (), {})()
    st.b, st.m, st.order, st.n = ParamBounds(), {}, [], 0
    return st


def m_set(st, name, lo, hi):
    d = st.m.setdefault(name, [None, None])
    if name not in st.order:
        st.order.append(name)
    if lo not in (None, 'N', '-inf'):
        d[0] = float(lo)
    if hi not in (None, 'N', 'inf'):
        d[1] = float(hi)


HAND = ['p  1.5  N\n\nq N 2.5\nother -1 1\n', 'q 4 4\np N N\nignored line of many words\nx\n', '# comment\np\t-3\t7\n']
HANDM = [[('p', 1.5, None), ('q', None, 2.5), ('other', -1, 1)], [('q', 4, 4), ('p', None, None)], [('p', -3, 7)]]


def build(ctx, config, hist):
    st = new_state()
    fn = os.path.join(ctx.scratch, 'b.ranges')
    for ev in hist:
        if ev[0] == 'set':
            arg = [val(ev[2]) if ev[2] in ('-inf',) else ev[2], val(ev[3]) if ev[3] == 'inf' else ev[3]]
            st.b.setRange(ev[1], arg if ev[4] == 'list' else tuple(arg))
            m_set(st, ev[1], ev[2], ev[3])
        elif ev[0] == 'fix':
            st.b.setFixed(ev[1], ev[2])
            m_set(st, ev[1], ev[2], ev[2])
        elif ev[0] == 'reload':
            f = fn if ev[1] == 'ranges' else fn.replace('ranges', 'bounds')
            st.b.saveToFile(f)
            st.b = ParamBounds(f)
        elif ev[0] == 'merge':
            # load the saved bounds over others
            st.b.saveToFile(fn)
            b = ParamBounds()
            b.setRange('q', (-100, 100))
            b.setRange('z', (None, 9))
            b.loadFromFile(fn)
            m, o = st.m, st.order
            st.b, st.m, st.order = b, {}, []
            m_set(st, 'q', -100, 100)
            m_set(st, 'z', None, 9)
            for n in o:
                m_set(st, n, *m[n])
        elif ev[0] == 'hand':
            with open(fn, 'w', encoding='utf-8-sig' if ev[1] == 0 else 'utf-8') as f:
                f.write(HAND[ev[1]])
            st.b.loadFromFile(fn)
            for n, lo, hi in HANDM[ev[1]]:
                m_set(st, n, lo, hi)
        ctx.step()
        verify(st.b, st.m, st.order)
    return st


def verify(b, m, order):
    require(list(b.names) == order, 'names %s, expected %s', b.names, order)
    fixed = {}
    for n in list(m) + ['absent']:
        lo, hi = m.get(n, (None, None))
        require(b.getLower(n) == lo and b.getUpper(n) == hi, 'bounds of %s: [%s, %s], expected [%s, %s]', n, b.getLower(n), b.getUpper(n), lo, hi)
        fx = lo if lo is not None and lo == hi else None
        require(b.fixedValue(n) == fx, 'fixed value of %s: %s, expected %s', n, b.fixedValue(n), fx)
        if fx is not None:
            fixed[n] = fx
    require(b.fixedValueDict() == fixed, 'fixed values %s, expected %s', b.fixedValueDict(), fixed)


def events(st):
    ev = []
    for i, n in enumerate(NAMES):
        for k, (lo, hi) in enumerate([(None, None), ('N', 'N'), ('-inf', 'inf'), (0, None), (0, 0), (None, 0.0), ('N', '2'), ('2', 'inf'), ('-inf', 3e-12), (-1.5, -1.2345678), (-1.2345678e30, 4), ('2', 2), (-1.2345678e-101, -1.2345678e-102), (-1.5e200, 1e-300)]):
            if i == 0 or k in (0, 3, 6, 9, 12):
                ev.append(['set', n, lo, hi, 'list' if (i + k) % 2 else 'tuple'])
        ev.append(['fix', n, 0 if i else 1.25])
    ev += [['reload', 'ranges'], ['reload', 'bounds'], ['merge'], ['hand', 0], ['hand', 1], ['hand', 2]]
    return ev


# ------------------------------------------------------------- through samples
SS = [(None, None), (-5, None), (None, 55.5), (-1, 60), (0.25, 0.25), ('N', 50)]
HOW = ['dict', 'list', 'bounds', 'file', 'settings', 'ini', 'all', 'setRanges']


def s_gen():
    for a, b in itertools.product(range(len(SS)), repeat=2):
        for how in HOW:
            if how == 'all' and a != b:
                continue
            yield [a, b, how]


def s_check(ctx, case):
    a, b, how = case
    x = np.array([[1.5 + i, 20. + (i * 7) % 11, 0.1 * i] for i in range(12)])
    names = ['p', LONG, 'r']
    rng = {'p': SS[a], LONG: SS[b], 'fixed': (2.5, 2.5), 'half': (None, 3)}
    expected = {n: [None if v[0] == 'N' else v[0], None if v[1] == 'N' else v[1]] for n, v in rng.items()}
    settings = {'ignore_rows': 0}
    txt = lambda v: '%s %s' % tuple('N' if z is None else z for z in v)
    d = os.path.join(ctx.scratch, 's')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    root = os.path.join(d, 'r')
    if how == 'dict':
        s = MCSamples(samples=x, names=names, ranges=rng, settings=settings)
    elif how == 'setRanges':
        s = MCSamples(samples=x, names=names, ranges={'r': (-7, 7)}, settings=settings)
        s.setRanges(rng)
        s.updateBaseStatistics()
        expected['r'] = [-7, 7]
    elif how == 'list':
        s = MCSamples(samples=x, names=names, ranges=[SS[a], SS[b], (None, 9)], settings=settings)
        expected = {'p': expected['p'], LONG: expected[LONG], 'r': [None, 9]}
    elif how == 'bounds':
        pb = ParamBounds()
        for n, v in rng.items():
            pb.setRange(n, v)
        s = MCSamples(samples=x, names=names, ranges=pb, settings=settings)
        pb.setRange('p', (-99, 99))
        pb.setRange('half', (-99, 99))
    elif how == 'file':
        with open(root + '.ranges', 'w') as f:
            for n, v in rng.items():
                f.write('%s %s\n' % (n, txt(v)))
        with open(root + '.paramnames', 'w') as f:
            f.write('\n'.join(names))
        np.savetxt(root + '_1.txt', np.hstack([np.ones((12, 2)), x]))
        s = loadMCSamples(root, settings=settings, no_cache=True)
    elif how in ('settings', 'ini'):
        lim = {'limits[%s]' % n: txt(v) for n, v in rng.items()}
        lim['limits[r]'] = 'N 8'
        expected = {'p': expected['p'], LONG: expected[LONG], 'r': [None, 8]}  # only limits of existing parameters are used
        if how == 'settings':
            s = MCSamples(samples=x, names=names, settings=dict(settings, **lim))
        else:
            fn = os.path.join(d, 'x.ini')
            with open(fn, 'w') as f:
                f.write('ignore_rows = 0\n' + ''.join('%s = %s\n' % kv for kv in lim.items()))
            s = MCSamples(samples=x, names=names, ini=fn)
    else:
        s = MCSamples(samples=x, names=names, settings=dict(settings, all_limits=txt(SS[a])))
        expected = {n: expected['p'] for n in names}
    for gen in range(3):
        for n in names:
            lo, hi = expected.get(n, (None, None))
            require(s.getLower(n) == lo and s.getUpper(n) == hi, '%s: bounds of %s are [%s, %s], expected [%s, %s] (generation %s)', how, n, s.getLower(n), s.getUpper(n), lo, hi, gen)
        order = [n for n in s.ranges.names if n in expected]
        fixed = {}
        for n, (lo, hi) in expected.items():
            require(s.ranges.getLower(n) == lo and s.ranges.getUpper(n) == hi, '%s: range of %s: [%s, %s]', how, n, s.ranges.getLower(n), s.ranges.getUpper(n))
            if lo is not None and lo == hi:
                fixed[n] = lo
        require(s.ranges.fixedValueDict() == fixed, 'fixed values %s, expected %s', s.ranges.fixedValueDict(), fixed)
        exp = dict(zip(names, x[3]), weight=1)
        if s.loglikes is not None:
            exp['loglike'] = s.loglikes[3]
        exp.update(fixed)
        got = s.getParamSampleDict(3)
        require(sorted(got) == sorted(exp) and all(abs(got[k] - exp[k]) < 1e-6 * (abs(exp[k]) + 1e-9) for k in exp), 'sample dictionary %s, expected %s', got, exp)
        nofix = s.getParamSampleDict(3, want_fixed=False)
        require(sorted(set(nofix) - {'weight', 'loglike'}) == sorted(names), 'sample dictionary without fixed parameters %s', nofix)
        bounds = s.getBounds()
        for n in names:
            lo, hi = expected.get(n, (None, None))
            require(bounds.getLower(n) in (lo, None) and bounds.getUpper(n) in (hi, None), 'plot bounds of %s', n)
        ctx.step()
        if gen < 2:
            nr = os.path.join(d, 'gen%d' % gen)
            s.saveAsText(nr)
            s = loadMCSamples(nr, settings=settings, no_cache=True)
    return repr(sorted(expected.items()))


def scenarios(tier):
    th = tier == 'thorough'
    return [Bfs('bounds', lambda: [0], build, events, lambda st: repr((sorted(st.m.items()), st.order)), 5 if th else 4), Enum('samples', s_gen, s_check)]
