"""Job index over submit/cancel/queue histories, against fake qsub/qstat/qdel."""
import contextlib
import io
import os
import shutil

from mc.core import Bfs, Enum, require
from mc.fakequeue import FakeQueue
from paramgrid import jobqueue

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('BFS over submissions of colliding job/chain names, cancellations by id, id range, queue state, chain name and job name (confirmed or not), '
        'queue progress and rejected/unsubmitted/dry-run submissions; after every event the index is reloaded from disk and '
        'compared with a table, together with the cancel commands issued and every queue query; queue formats: every listing format, state and column layout parsed')
ASSUMPTIONS = ['queue commands are stand-ins that follow PBS / OGS output formats', 'job ids are never reused by the queue']

TEMPLATE = '''#!/bin/sh
##DEFAULT_nodes: 1##
##DEFAULT_chainsPerNode: 2##
##DEFAULT_coresPerNode: 8##
##DEFAULT_walltime: 12:00:00##
#name ##JOBNAME## t ##WALLTIME## n ##NUMNODES##
##COMMAND##
'''

# (job name, parameter files, sequential)
SUBS = [['jA', ['inis/A.ini'], False], ['jAB', ['inis/A.ini', 'inis/B.ini'], False], ['jA', ['inis/B.ini'], False],
        ['jABC', ['inis/B.ini', 'inis/C.ini'], True]]


def events_for(st):
    ev = [['submit', i] for i in range(len(SUBS))]
    n = len(st.index)
    if n < 3:
        ev += [['dry', 0], ['nosub', 1], ['reject', 1]]
    for r in ('A', 'B', 'C'):
        ev.append(['cancel_root', [r], True])
    ev += [['cancel_root', ['A', 'nosuch', 'B'], True], ['cancel_root', ['B'], False], ['cancel_job', ['jA'], True], ['cancel_job', ['jAB'], True],
           ['del_job', ['jA']], ['del_job', ['jAB', 'nojob']]]
    for i in range(n):
        ev += [['cancel_id', [i], True], ['cancel_min', i, True], ['cancel_range', [i, min(n - 1, i + 1)], True]]
    if n:
        ev += [['cancel_id', [0], False], ['cancel_min', 0, False], ['cancel_state', 'r', True], ['cancel_state', 'qw', True], ['cancel_state', 'r', False]]
    if n > 1:
        ev.append(['cancel_id', [1, 0], True])
    if st.queue:
        ev += [['run', 0], ['finish', 0], ['finish', len(st.queue) - 1]]
    return ev


class St(object):
    pass


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def idnum(jobid):
    return [int(x) for x in jobid.split('.') if x.isdigit()][0]


def build(ctx, config, hist):
    base = os.path.join(ctx.scratch, 'q')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/run/scripts')
    os.makedirs(base + '/run/grid')
    cwd = os.getcwd()
    os.chdir(base + '/run')
    try:
        with quiet():
            return _build(ctx, config, hist, base)
    finally:
        os.chdir(cwd)


def _build(ctx, config, hist, base):
    fmt, where, prefix = config
    hist = prefix + hist
    bp = {'grid': base + '/run/grid', 'default': None, 'slash': base + '/run/grid/'}[where]
    fq = FakeQueue(os.path.join(ctx.scratch, 'bin'), base + '/fq', fmt)
    with open('job_script', 'w') as f:
        f.write(TEMPLATE)
    st = St()
    st.index = []  # reference: list of dict(id, name, roots), oldest first
    st.queue = []  # reference: [id, state]
    st.next = 100
    st.dead = 0
    if not hist:
        check(ctx, st, fq, bp)
    for nev, ev in enumerate(hist):
        op = ev[0]
        expect_log = []
        ctx.step()
        if op in ('submit', 'dry', 'nosub', 'reject'):
            name, files, seq = SUBS[ev[1]]
            fq.reject(op == 'reject')
            kw = {}
            if op == 'dry':
                kw['dryrun'] = True
            if op == 'nosub':
                kw['no_sub'] = True
            files_in = list(files) if len(files) > 1 else files[0]
            jobqueue.submitJob(name, files_in, sequential=seq, batchPath=bp, **kw)
            fq.reject(False)
            if op in ('submit', 'reject'):
                expect_log = ['qsub ./scripts/%s_subscript' % name]
            if op == 'submit':
                st.next += 1
                jid = ('Moab.' if fmt == 'moab' else '') + str(st.next) + ('.host' if fmt == 'pbs' else '')
                st.index.append(dict(id=jid, name=name, roots=[os.path.basename(f)[:-4] for f in files], files=[f[:-4] for f in files]))
                st.queue.append([jid, 'qw'])
                with open('scripts/%s_subscript' % name) as f:
                    script = f.read()
                require('##' + 'COMMAND##' not in script and '#name %s t 12:00:00 n 1' % name in script, 'script text %r', script)
                cmds = [line for line in script.splitlines() if line.startswith('time mpirun')]
                require(len(cmds) == len(files) and all(c.split()[5] == f for c, f in zip(cmds, files)), 'script commands %r', cmds)
                require(all(c.rstrip().endswith('&') == (not seq) for c in cmds), 'background %r', cmds)
                with open('scripts/%s.sub' % name) as f:
                    require(f.read().strip() == jid, '.sub file')
        elif op in ('cancel_root', 'cancel_job', 'cancel_id', 'cancel_min', 'cancel_range', 'cancel_state'):
            confirm = ev[2]
            if op == 'cancel_root':
                sel = []
                for r in ev[1]:
                    live = [j for j in st.index if r in j['roots']]
                    if live and live[-1]['id'] not in sel:
                        sel.append(live[-1]['id'])
                jobqueue.deleteJobs(bp, rootNames=list(ev[1]) if len(ev[1]) > 1 else ev[1][0], confirm=confirm)
            elif op == 'cancel_job':
                sel = []
                for r in ev[1]:
                    live = [j for j in st.index if r == j['name']]
                    if live:
                        sel.append(live[-1]['id'])
                jobqueue.deleteJobs(bp, jobNames=list(ev[1]), confirm=confirm)
            elif op == 'cancel_id':
                sel = [st.index[i]['id'] for i in ev[1]]
                jobqueue.deleteJobs(bp, list(sel) if len(sel) > 1 else sel[0], confirm=confirm)
            elif op == 'cancel_min':
                m = idnum(st.index[ev[1]]['id'])
                sel = [j['id'] for j in st.index if idnum(j['id']) >= m]
                jobqueue.deleteJobs(bp, jobId_min=m, confirm=confirm)
            elif op == 'cancel_state':
                inq = [q[0] for q in st.queue if q[1] == ev[1]]
                sel = [j['id'] for j in st.index if j['id'] in inq]
                jobqueue.deleteJobs(bp, jobId_min=0, confirm=confirm, running=ev[1] == 'r', queued=ev[1] == 'qw')
            else:
                lo, hi = [idnum(st.index[i]['id']) for i in ev[1]]
                sel = [j['id'] for j in st.index if lo <= idnum(j['id']) <= hi]
                jobqueue.deleteJobs(bp, jobId_minmax=[lo, hi], confirm=confirm)
            if confirm:
                expect_log = ['qdel ' + s for s in sel if s in [q[0] for q in st.queue]]
                st.index = [j for j in st.index if j['id'] not in sel]
                st.queue = [q for q in st.queue if q[0] not in sel]
        elif op == 'del_job':
            jobqueue.deleteJobNames(bp, ev[1] if len(ev[1]) > 1 else ev[1][0])
            for r in ev[1]:
                live = [j for j in st.index if r == j['name']]
                if live:
                    st.index.remove(live[-1])
        elif op == 'run':
            st.queue[ev[1]][1] = 'r'
            fq.set_jobs([[j[0], 'r' if k == ev[1] else j[1], j[2]] for k, j in enumerate(fq.jobs())])
        elif op == 'finish':
            del st.queue[ev[1]]
            fq.set_jobs([j for k, j in enumerate(fq.jobs()) if k != ev[1]])
        log = fq.take_log()
        require(sorted(log) == sorted(expect_log), '%s issued the queue commands %s, expected %s', ev, log, expect_log)
        if nev == len(hist) - 1:
            check(ctx, st, fq, bp)
    return st


def check(ctx, st, fq, bp):
    idx = jobqueue.loadJobIndex(bp)
    ids = [j['id'] for j in st.index]
    require(set(idx.jobSettings) == set(ids), 'index holds jobs %s, expected %s', sorted(idx.jobSettings), ids)
    require(list(idx.jobSequence) == ids, 'job sequence %s, expected %s', idx.jobSequence, ids)
    for j in st.index:
        g = idx.jobSettings[j['id']]
        require(g.jobId == j['id'] and g.jobName == j['name'] and list(g.names) == j['roots'] and list(g.paramFiles) == j['files'],
                'job %s is recorded as %s %s %s', j, g.jobId, g.jobName, g.names)
        require(g.nodes == 1 and g.chainsPerNode == 2 and g.walltime == '12:00:00', 'settings of job')
    names, roots = {}, {}
    for j in st.index:
        names[j['name']] = j['id']
        for r in j['roots']:
            roots[r] = j['id']
    require(dict(idx.jobNames) == names, 'job names map to %s, expected %s', idx.jobNames, names)
    require(dict(idx.rootNames) == roots, 'chain names map to %s, expected %s', idx.rootNames, roots)
    require([q[:2] for q in fq.jobs()] == st.queue, 'queue %s expected %s', fq.jobs(), st.queue)
    byid = {j['id']: j for j in st.index}
    for running, queued in ((True, True), (True, False), (False, True)):
        sel = [q[0] for q in st.queue if q[0] in byid and (running and q[1] == 'r' or queued and q[1] != 'r')]
        got = jobqueue.queue_job_details(bp, running=running, queued=queued)
        require(list(got[0]) == sel, 'queue ids (running=%s queued=%s) %s expected %s', running, queued, got[0], sel)
        require(list(got[1]) == [byid[i]['name'] for i in sel], 'queue names %s', got[1])
        require([list(x) for x in got[2]] == [byid[i]['roots'] for i in sel], 'queue chains %s', got[2])
        require(len(got[3]) == len(sel) and all(i in line for i, line in zip(sel, got[3])), 'queue info %s', got[3])
        if queued:
            flat = [r for i in sel for r in byid[i]['roots']]
            require(list(jobqueue.queue_job_names(bp, running=running, queued=queued)) == flat, 'queued chain names')
        ctx.step()


def canon(st):
    ids = sorted(set([j['id'] for j in st.index] + [q[0] for q in st.queue]))
    rank = {i: n for n, i in enumerate(ids)}
    return repr(([(rank[j['id']], j['name'], j['roots']) for j in st.index], [(rank[q[0]], q[1]) for q in st.queue]))


def scenarios(tier):
    quick = tier == 'quick'
    S = [['submit', i] for i in range(len(SUBS))]
    pre = [[]] + [[s] for s in S]
    full = [[a, b, c] for a in S for b in S for c in S]
    part = [[S[a], S[b], S[(a + 2 * b + 1) % 4]] for a in range(4) for b in range(4)]
    fmts = [['plain', 'grid'], ['pbs', 'default'], ['ogs', 'slash']]
    res = [Bfs('history', lambda: [f + [p] for p in pre for f in fmts], build, events_for, canon, 2 if quick else 3),
           # from every state of three live jobs (non-initial states)
           Bfs('loaded', lambda: [fmts[i % 3] + [p] for i, p in enumerate(part)] if quick else [f + [p] for p in full for f in fmts],
               build, events_for, canon, 2),
           # other ways in which queues name and list their jobs
           Bfs('formats', lambda: [f + [p] for f in (['moab', 'grid'], ['shortpbs', 'grid'], ['shortmoab', 'grid'], ['showq', 'grid']) for p in ([S[0]], [S[1], S[2]], [S[0], S[3], S[1]])],
               build, events_for, canon, 1 if quick else 2)]
    return res
