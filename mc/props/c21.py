"""Which jobs runbatch submits, and how."""
import hashlib
import itertools
import os
import shutil
import time

from mc.core import Bfs, Enum, require
from mc import gridlib
from mc.fakequeue import FakeQueue
from mc.gridlib import run_script, write
from paramgrid import batchjob, jobqueue

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('select: every combination of up to three submission options on a grid holding a full run in every combination of chain files, best-fit file, convergence file, checkpoint, age and analysis result, '
        'and importance: on a grid holding every combination of parent and importance-run states; submitted run files compared with the conjunction of the option conditions; '
        'queue: BFS over submissions with different options and batch sizes, finished jobs and repeated submissions against a stand-in queue; status: the checking script over the same states; stuck: chains with any pattern of missing and old chain files')
ASSUMPTIONS = ['an importance chain exists only if its parent chain does', 'queue commands are stand-ins', 'a chain file older than an hour belongs to a stopped run, a file written now to a running one']


def I(names, form='setting', minimize=True):
    return dict(names=names, inis=[n + '.ini' for n in names], form=form, want=None, dist=None, min=minimize)


# ---- full runs in every state
CH, MN, CV, CK, AG, DR = 4, 4, 5, 2, 2, 4
STATES = [s for s in itertools.product(range(CH), range(MN), range(CV), range(CK), range(AG), range(DR)) if not (s[0] in (0, 3) and s[4])]
OLD, NEW = 7200, 0


def conv(r):
    return ' R-1\n var(mean)/mean(var)\n   1  0.00001\n   2   %s\n\n' % r


def put(j, st, now):
    ch, mn, cv, ck, ag, dr = st
    cr = j.chainRoot
    if ch in (1, 2):
        write(cr + '_1.txt', '1 1 1\n')
        os.utime(cr + '_1.txt', (now - (NEW if ag else OLD),) * 2)
    if ch == 2:
        write(cr + '_2.txt', '1 1 1\n')
    if ch == 3:
        write(cr + '_1.txt', '')
        write(cr + '_2.txt', '1 1 1\n')
    if mn:
        write(cr + '.minimum', {1: ' -log(Like) = 5.0\n\n    1 0.1 a a\n', 2: ' -log(Like) = 1e30\n\n    1 0.1 a a\n', 3: ''}[mn])
    if cv:
        write(cr + '.converge_stat', {1: '0.5\n', 2: ' 0.01\nRunning\n', 3: '0.005\nDone\n', 4: '0.5\nDone\n'}[cv])
    if ck:
        write(cr + '_1.chk', 'x')
    if dr:
        write(j.distRoot + '.converge', {1: conv('0.005'), 2: conv('0.5'), 3: 'rubbish'}[dr])


def spec_full(n):
    return dict(groups=[dict(name='g', params=[['p%04d' % i] for i in range(n)], data=[['A', None, None]], imp=[])], skip=[])


def grid_full(ctx):
    if getattr(ctx, 'c21', None) is None:
        d = os.path.join(ctx.scratch, 'g21') + os.sep
        os.makedirs(d)
        b = batchjob.batchJob(d, 'ini/')
        with gridlib.quiet():
            b.makeItems(gridlib.mk_settings(spec_full(len(STATES))))
        b.save()
        now = time.time()
        for j, st in zip(b.jobItems, STATES):
            os.makedirs(j.chainPath)
            put(j, st, now)
        ctx.c21 = d, [(j.name, st) for j, st in zip(b.jobItems, STATES)], now
    d, items, now = ctx.c21
    return d, items


OPTS = [('notexist', [[]]), ('notall', [['1'], ['2']]), ('converge', [['0.01'], ['0.6']]), ('minimize', [[]]), ('minimize_failed', [[]]), ('checkpoint_run', [[], ['0.1']]), ('chain_exists', [[]]), ('not_queued', [[]]),
        ('name', [['*_p00*']])]


def gen_full(tier):
    for k in range(4 if tier == 'quick' else 6):
        for c in itertools.combinations(range(len(OPTS)), k):
            for v in itertools.product(*[range(len(OPTS[i][1])) for i in c]):
                yield [[OPTS[i][0], OPTS[i][1][x]] for i, x in zip(c, v)]


def want_full(st, o, queued, name):
    ch, mn, cv, ck, ag, dr = st
    first = ch in (1, 2)
    mini = 'minimize' in o
    if 'notexist' in o and (mn in (1, 2) if mini else first):
        return False
    if 'minimize_failed' in o and mn == 1:
        return False
    if 'notall' in o and not mini and (first if o['notall'] == ['1'] else ch == 2):
        return False
    if 'converge' in o and not ({1: 0.005, 2: 0.5}.get(dr, -1) > float(o['converge'][0])):
        return False
    if 'checkpoint_run' in o:
        if not (ck and cv in (1, 2) and {1: 0.5, 2: 0.01}[cv] > float((o['checkpoint_run'] or ['0'])[0])):
            return False
        if not (first and not ag):
            return False
    if 'chain_exists' in o and not first:
        return False
    if 'not_queued' in o and name + ('_minimize' if mini else '') in queued:
        return False
    if 'name' in o and '_p00' not in name:
        return False
    return True


class Recorder(object):
    """stands for the submission to the queue"""

    def __init__(self, queued):
        self.queued, self.subs = queued, []

    def __enter__(self):
        self.save = jobqueue.submitJob, jobqueue.queue_job_names

        def submit(jobName, paramFiles, sequential=False, msg=False, **kw):
            if paramFiles is not None:
                self.subs.append([jobName, [paramFiles] if isinstance(paramFiles, str) else list(paramFiles), sequential, kw])

        jobqueue.submitJob = submit
        jobqueue.queue_job_names = lambda batchPath=None, running=False, queued=True: list(self.queued) if running and queued else []
        return self

    def __exit__(self, *a):
        jobqueue.submitJob, jobqueue.queue_job_names = self.save


def args_of(case):
    return [x for o, v in case for x in ['--' + o] + v]


def full_check(ctx, case):
    d, items = grid_full(ctx)
    o = {k: v for k, v in case}
    queued = [n + x for n, s in items[::3] for x in ('', '_minimize')[:1 + (s[1] % 2)]]
    with Recorder(queued) as rec:
        run_script('runbatch.py', [d] + args_of(case), ctx.scratch)
    got = [os.path.basename(f) for s in rec.subs for f in s[1]]
    suffix = '_minimize' if 'minimize' in o else ''
    exp = [n + suffix for n, st in items if want_full(st, o, queued, n)]
    ctx.step(len(items))
    got = [g[:-4] if g.endswith('.ini') else g for g in got]
    require(got == exp, 'runbatch %s: wrongly submitted %r, wrongly left %r', ' '.join(args_of(case)), [(g, dict(items).get(g[:len(g) - len(suffix) or None])) for g in got if g not in exp][:3], [(g, dict(items).get(g[:len(g) - len(suffix) or None])) for g in exp if g not in got][:3])
    require(all(len(s[1]) == 1 for s in rec.subs) and all(os.path.dirname(s[1][0]) == d + 'iniFiles' for s in rec.subs), 'run files %r', rec.subs[:2])
    require([s[0] for s in rec.subs] == exp, 'job names')
    return len(got)


# ---- importance runs
PSTATES = list(itertools.product(range(3), range(4), range(2), range(3)))  # chain, convergence, age, analysis
KIDS = list(itertools.product(range(3), range(2)))  # chain (none, older than parent, newer), minimum


def grid_imp(ctx):
    if getattr(ctx, 'c21i', None) is None:
        d = os.path.join(ctx.scratch, 'g21i') + os.sep
        os.makedirs(d)
        imps = [I(['I%d' % i], minimize=i != 2) for i in range(len(KIDS))] + [I(['F'], 'filter')]
        spec = dict(groups=[dict(name='g', params=[['p%04d' % i] for i in range(len(PSTATES))], data=[['A', None, None]], imp=imps)], skip=[])
        b = batchjob.batchJob(d, 'ini/')
        with gridlib.quiet():
            b.makeItems(gridlib.mk_settings(spec))
        b.save()
        now = time.time()
        items = []
        for j, (ch, cv, ag, dr) in zip(b.jobItems, PSTATES):
            os.makedirs(j.chainPath)
            put(j, ([0, 1, 3][ch], 0, cv, 0, ag, dr), now)
            items.append((j.name, False, None, None))
            for k, imp in enumerate(j.importanceItems):
                if k == len(KIDS):
                    items.append((imp.name, 'filter', (ch, cv, ag, dr), None))
                    continue
                cst, mn = KIDS[k]
                if ch != 1:
                    cst = 0
                if cst:
                    write(imp.chainName(), '1 1 1\n')
                    t = now - (NEW if ag else OLD) + (-600 if cst == 1 else 600)
                    os.utime(imp.chainName(), (t, t))
                if mn:
                    write(imp.chainRoot + '.minimum', ' -log(Like) = 5.0\n\n    1 0.1 a a\n')
                items.append((imp.name, True, (ch, cv, ag, dr), (cst, mn, k != 2)))
        ctx.c21i = d, items
    return ctx.c21i


IOPTS = [('importance', [[], ['I1', 'I2']]), ('importance_ready', [[]]), ('importance_changed', [[]]), ('importance_minimize', [[]]), ('parent_converge', [['0.01'], ['0.6']]), ('parent_stopped', [[]]),
         ('chain_exists', [[]]), ('notexist', [[]]), ('minimize_failed', [[]]), ('not_queued', [[]]), ('importancetag', [['I0', 'I4', 'I5']])]


def gen_imp(tier):
    for k in range(1, 4 if tier == 'quick' else 6):
        for c in itertools.combinations(range(len(IOPTS)), k):
            names = [IOPTS[i][0] for i in c]
            if not set(names) & {'importance', 'importance_ready', 'importance_changed', 'importance_minimize'}:
                continue
            for v in itertools.product(*[range(len(IOPTS[i][1])) for i in c]):
                yield [[IOPTS[i][0], IOPTS[i][1][x]] for i, x in zip(c, v)]


def want_imp(name, ps, ks, o, queued):
    ch, cv, ag, dr = ps
    cst, mn, wantmin = ks
    tag = name.split('_post_')[1]
    if o.get('importance') and tag not in o['importance']:
        return False
    if o.get('importancetag') and tag not in o['importancetag']:
        return False
    mini = 'importance_minimize' in o
    pexists = ch == 1
    if mini and not wantmin:
        return False
    if 'notexist' in o and (mn if mini else cst):
        return False
    if 'minimize_failed' in o and mn:
        return False
    if 'parent_converge' in o and not ({1: 0.005, 2: 0.5}.get(dr, 9) <= float(o['parent_converge'][0])):
        return False
    if not mini:
        if 'importance_ready' in o:
            if cv != 3:
                return False
        elif not pexists:
            return False
        if 'importance_changed' in o and cst == 2:
            return False
        if 'parent_stopped' in o and not (pexists and not ag):
            return False
    if 'chain_exists' in o and not cst:
        return False
    if 'not_queued' in o and name + ('_minimize' if mini else '') in queued:
        return False
    return True


def imp_check(ctx, case):
    d, items = grid_imp(ctx)
    o = {k: v for k, v in case}
    queued = [it[0] + x for n, it in enumerate(items) if n % 3 == 0 for x in ('', '_minimize')[:1 + n % 2]]
    with Recorder(queued) as rec:
        run_script('runbatch.py', [d] + args_of(case), ctx.scratch)
    suffix = '_minimize' if 'importance_minimize' in o else ''
    exp = [it[0] + suffix for it in items if it[1] is True and want_imp(it[0], it[2], it[3], o, queued)]
    got = [os.path.basename(f) for s in rec.subs for f in s[1]]
    got = [g[:-4] if g.endswith('.ini') else g for g in got]
    ctx.step(len(items))
    look = {it[0] + suffix: it for it in items}
    require(got == exp, 'runbatch %s: wrongly submitted %r, wrongly left %r', ' '.join(args_of(case)), [look.get(g) for g in got if g not in exp][:3], [look.get(g) for g in exp if g not in got][:3])
    require(all(os.path.dirname(f) == d + 'postIniFiles' for s in rec.subs for f in s[1]), 'run files')
    return len(got)


# ---- histories with a queue
TEMPLATE = '#!/bin/sh\n##DEFAULT_nodes: 1##\n##DEFAULT_chainsPerNode: 1##\n##DEFAULT_coresPerNode: 8##\n##COMMAND##\n'
LONG = ['averylongparametername%d' % i for i in range(4)]
RUNS = [[], ['--not_queued'], ['--runsPerJob', '2', '--not_queued'], ['--runsPerJob', '4'], ['--minimize', '--not_queued'], ['--combineOneJobName', 'combo', '--not_queued'], ['--importance', '--not_queued'],
        ['--importance_minimize', '--not_queued', '--runsPerJob', '2'], ['--param', LONG[1], '--not_queued'], ['--dryrun'], ['--no_sub'], ['--runsPerJob', '2', '--dryrun', '--minimize'], ['--notexist', '--not_queued']]


class St(object):
    pass


def qbuild(ctx, config, hist):
    base = os.path.join(ctx.scratch, 'q21')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/scripts')
    d = base + '/grid' + os.sep
    os.makedirs(d)
    spec = dict(groups=[dict(name='g', params=[[], [LONG[1]], [LONG[2], LONG[3]]], data=[['A', None, None]], imp=[I(['I'])])], skip=[])
    b = batchjob.batchJob(d, 'ini/')
    with gridlib.quiet():
        b.makeItems(gridlib.mk_settings(spec))
    b.save()
    for j in b.jobItems:
        os.makedirs(j.chainPath)
    for j in b.jobItems[1:]:
        write(j.chainName(), '1 1 1\n')
    fq = FakeQueue(os.path.join(ctx.scratch, 'bin21'), base + '/fq', config[0])
    cwd = os.getcwd()
    os.chdir(base)
    st = St()
    st.queue = []  # [id, chains]
    st.alljobs = {}
    try:
        write(base + '/job_script', TEMPLATE)
        for n, ev in enumerate(hist):
            ctx.step()
            fq.take_log()
            if ev[0] == 'finish':
                del st.queue[ev[1]]
                fq.set_jobs([q for k, q in enumerate(fq.jobs()) if k != ev[1]])
                continue
            a = RUNS[ev[1]]
            mini = '--minimize' in a or '--importance_minimize' in a
            imp = '--importance' in a or '--importance_minimize' in a
            names = []
            for k, j in enumerate(b.jobItems):
                it = j.importanceItems[0] if imp else j
                if imp and not mini and k == 0:
                    continue  # parent does not exist
                if '--param' in a and k != 1:
                    continue
                if '--notexist' in a and k != 0:
                    continue
                names.append(it.name + ('_minimize' if mini else ''))
            inq = [c for q in st.queue for c in q[1]]
            if '--not_queued' in a:
                names = [x for x in names if x not in inq]
            per = int(a[a.index('--runsPerJob') + 1]) if '--runsPerJob' in a else 1
            if '--combineOneJobName' in a:
                groups = [names] if names else []
            else:
                groups = [names[i:i + per] for i in range(0, len(names), per)]
            run_script('runbatch.py', [d] + a, ctx.scratch)
            log = fq.take_log()
            if '--dryrun' in a or '--no_sub' in a:
                require(log == [], '%r submitted %r', a, log)
                if '--dryrun' in a and n == 0:
                    require(os.listdir(base + '/scripts') == [], 'dry run wrote %r', os.listdir(base + '/scripts'))
                continue
            require(len(log) == len(groups) and all(x.startswith('qsub ') for x in log), '%r: queue commands %r for %r', a, log, groups)
            jobs = fq.jobs()
            idx = jobqueue.loadJobIndex(d)
            for g, q, line in zip(groups, jobs[len(st.queue):], log):
                j = idx.jobSettings.get(q[0])
                require(j is not None, 'job %s is not in the index', q[0])
                require(list(j.names) == g, '%r: job %s runs %r, should run %r', a, q[0], j.names, g)
                if '--combineOneJobName' in a:
                    require(j.jobName == 'combo', 'name %r', j.jobName)
                with open(base + '/scripts/%s_subscript' % j.jobName) as f:
                    cmds = [x for x in f.read().splitlines() if x.startswith('time mpirun')]
                files = [d + ('postIniFiles' if imp else 'iniFiles') + os.sep + x + '.ini' for x in g]
                require([c.split()[5] for c in cmds] == files, 'job commands %r for %r', cmds, files)
                require(all(c.rstrip().endswith('&') == ('--combineOneJobName' not in a) for c in cmds), 'sequential %r', cmds)
                require(len(os.path.basename(j.jobName)) < 250, 'job name too long')
                st.queue.append([q[0], g])
            require([q[0] for q in jobs] == [q[0] for q in st.queue], 'queue %r', jobs)
            if '--combineOneJobName' not in a and not mini and not imp and '--not_queued' not in a:
                pass
            # different jobs submitted in one go must not overwrite each other's script
            ns = [idx.jobSettings[q[0]].jobName for q in jobs[len(jobs) - len(groups):]] if groups else []
            require(len(set(ns)) == len(ns), 'job names %r', ns)
            if all('--not_queued' in RUNS[e[1]] for e in hist if e[0] == 'run'):
                flat = [c for q in st.queue for c in q[1]]
                require(len(flat) == len(set(flat)), 'chains queued twice %r', flat)
    finally:
        os.chdir(cwd)
    return st


def qevents(st):
    ev = [['run', i] for i in range(len(RUNS))]
    if st.queue:
        ev += [['finish', 0]]
        if len(st.queue) > 1:
            ev += [['finish', len(st.queue) - 1]]
    return ev


def qcanon(st):
    return repr([q[1] for q in st.queue])


# ---- status script
def status_gen():
    for o in itertools.product((0, 1), repeat=4):
        for c in (None, '0.01', '0.6'):
            yield [list(o), c]


def status_check(ctx, case):
    d, items = grid_full(ctx)
    (exist, chk, running, notrun), c = case
    a = [d] + ['--exist'] * exist + ['--checkpoint'] * chk + ['--running'] * running + ['--not_running'] * notrun
    if c:
        a += ['--converge', c]
    bad = set(n for n, st in items if st[0] in (1, 2) and st[5] == 3)
    if not (chk or running) and not c:
        a += ['--name', '*_p00*']
    try:
        text = run_script('checkConverge.py', a, ctx.scratch)
    except Exception:
        # the analysis result of some selected chain is unreadable and it was to be printed
        require(not (chk or running) and not c and any('_p00' in b for b in bad), 'checkConverge %s failed', ' '.join(a[1:]))
        return 'bad'
    lines = text.splitlines()
    roots = [os.path.basename(line.split()[1]) for line in lines if line.startswith('... ')]
    if chk or running:
        exp = []
        for n, (ch, mn, cv, ck, ag, dr) in items:
            stopped = ch in (1, 2) and not ag
            if cv in (1, 2) and (not notrun or stopped) and (not running or not stopped):
                exp.append(n)
    else:
        items = [x for x in items if c or '_p00' in x[0]]
        ne = [n for n, st in items if st[0] in (0, 3)]
        exp = [] if exist else ne
        for n, (ch, mn, cv, ck, ag, dr) in items:
            if ch in (1, 2) and (not c or {1: 0.005, 2: 0.5}.get(dr, -1) > float(c)) and (not notrun or not ag):
                exp = exp + [n]
    require(roots == exp, 'checkConverge %s: wrongly listed %r, wrongly left %r', ' '.join(a[1:]), [(r, dict(items).get(r)) for r in roots if r not in exp][:3], [(r, dict(items).get(r)) for r in exp if r not in roots][:3])
    return len(roots)


# ---- chains which look stuck
def stuck_gen():
    pats = [p for n in (1, 2, 3, 4) for p in itertools.product((0, 1, 2), repeat=n) if p[0] and p[-1]]
    # 0: no file, 1: written now, 2: written long before; all of one length are the items of one grid
    for n in (1, 2, 3, 4):
        for opt in ('stuck', 'running', 'checkpoint'):
            yield [[list(p) for p in pats if len(p) == n], opt]


def stuck_check(ctx, case):
    pats, opt = case
    d = os.path.join(ctx.scratch, 's21', '') + os.sep
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    b = batchjob.batchJob(d, 'ini/')
    with gridlib.quiet():
        b.makeItems(gridlib.mk_settings(spec_full(len(pats))))
    b.save()
    now = time.time()
    exp, any_gap = [], []
    for j, p in zip(b.jobItems, pats):
        os.makedirs(j.chainPath)
        with open(j.chainRoot + '.converge_stat', 'w') as f:
            f.write('0.5\n')
        for i, x in enumerate(p):
            if x:
                with open(j.chainRoot + '_%d.txt' % (i + 1), 'w') as f:
                    f.write('1 2 3\n')
                os.utime(j.chainRoot + '_%d.txt' % (i + 1), (now - (1, 1, 2000)[x],) * 2)
        first = p.index(0) if 0 in p else len(p)
        if 0 in p and not p[first + 1]:
            any_gap.append(j.name)  # more than one missing: not specified
        if 0 in p and p[first + 1] or len(set(p[:first])) > 1:
            exp.append(j.name)
    ctx.step(len(pats))
    text = run_script('checkConverge.py', [d, '--' + opt], ctx.scratch)
    got = [line[len('Chain stuck?...'):] for line in text.splitlines() if line.startswith('Chain stuck?')]
    if opt == 'checkpoint':
        exp = []
    free = set(any_gap) - set(exp)
    require([g for g in got if g not in free] == exp, 'stuck chains %r expected %r', got, exp)
    return len(exp)


def scenarios(tier):
    return [Enum('select', lambda: gen_full(tier), full_check), Enum('importance', lambda: gen_imp(tier), imp_check),
            Bfs('queue', lambda: [['plain'], ['pbs']], qbuild, qevents, qcanon, 3 if tier == 'quick' else 4), Enum('status', status_gen, status_check),
            Enum('stuck', stuck_gen, stuck_check)]
