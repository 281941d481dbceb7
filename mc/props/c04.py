"""Crash/fault enumeration of job index updates."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile

from mc.core import Enum, require, HarnessError
from mc import faults
from mc.fakequeue import FakeQueue
from mc.props.c03 import TEMPLATE
from paramgrid import jobqueue

PROPERTY = 'C04'
LEVEL = 'fault_enumeration'
RULE = ('for each starting index and each update, the modifying file operations of the real update are logged, then the update is re-run '
        'once per crash point (killed before each operation, after every torn prefix of each write) and per failing operation '
        '(ENOSPC/EIO, transient and persistent); distinct = distinct (update, fault kind, recovered index, next update result)')
ASSUMPTIONS = ['crash = process death: completed writes are visible, in order', 'writes over 4 kB are torn at a fixed set of offsets, smaller ones at every byte']


def mkjob(i, names, jobname=None):
    j = jobqueue.jobSettings.__new__(jobqueue.jobSettings)
    j.jobId = str(100 + i)
    j.jobName = jobname or 'job%d' % i
    j.names = names
    j.paramFiles = names
    j.nodes = 1
    j.padding = 'x' * 40
    return j


STARTS = {'none': 0, 'one': 1, 'three': 3, 'many': 700}
UPDATES = ['add', 'del_root', 'del_name', 'del_min', 'submit']


def setup(d, start):
    os.makedirs(d + '/run/scripts')
    os.makedirs(d + '/run/grid')
    with open(d + '/run/job_script', 'w') as f:
        f.write(TEMPLATE)
    FakeQueue(d + '/bin', d + '/fq', 'plain').write('next', '5000\n')
    for i in range(min(STARTS[start], 3)):
        jobqueue.addJobIndex(d + '/run/grid', mkjob(i, ['root%d' % i, 'shared']))
    if STARTS[start] > 3:
        idx = jobqueue.loadJobIndex(d + '/run/grid')
        for i in range(3, STARTS[start]):
            idx.addJob(mkjob(i, ['root%d' % i, 'shared']))
        jobqueue.saveJobIndex(idx, d + '/run/grid')


def do_update(d, update):
    g = d + '/run/grid'
    os.chdir(d + '/run')
    with contextlib.redirect_stdout(io.StringIO()):
        if update == 'add':
            jobqueue.addJobIndex(g, mkjob(3000, ['root1', 'new']))
        elif update == 'del_root':
            jobqueue.deleteJobs(g, rootNames=['root0'])
        elif update == 'del_name':
            jobqueue.deleteJobNames(g, ['job0'])
        elif update == 'del_min':
            jobqueue.deleteJobs(g, jobId_min=101)
        elif update == 'submit':
            jobqueue.submitJob('jobX', ['inis/root2.ini'], batchPath=g)


def summary(d):
    idx = jobqueue.loadJobIndex(d + '/run/grid')
    return repr((sorted((k, v.jobName, list(v.names)) for k, v in idx.jobSettings.items()), sorted(idx.jobNames.items()),
                 sorted(idx.rootNames.items()), list(idx.jobSequence)))


_tmpl = {}


def template(start):
    if start not in _tmpl:
        d = tempfile.mkdtemp(prefix='c04t')
        t = d + '/t'
        os.makedirs(t)
        setup(t, start)
        _tmpl[start] = t
    return _tmpl[start]


def fresh(ctx_scratch, start):
    d = os.path.join(ctx_scratch, 'case')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(template(start), d)
    os.environ['FAKEQ'] = d + '/fq'
    os.environ['PATH'] = d + '/bin:/usr/bin:/bin'
    os.environ['USER'] = 'mcuser'
    return d


def cases(tier):
    scratch = tempfile.mkdtemp(prefix='c04g')
    for start in STARTS:
        for update in UPDATES:
            if tier == 'quick' and start == 'many' and update not in ('add', 'del_root'):
                continue
            d = fresh(scratch, start)
            res, text, ops = faults.run(d + '/run/grid', lambda: do_update(d, update))
            if res != 'ok':
                yield dict(start=start, update=update, fault=None)
                continue
            yield dict(start=start, update=update, fault=None)
            for f in faults.points(ops, 4096 if tier == 'quick' else 60000):
                yield dict(start=start, update=update, fault=f)


_prevnext = {}


def check(ctx, case):
    cwd = os.getcwd()
    try:
        return _check(ctx, case)
    finally:
        os.chdir(cwd)


def _check(ctx, case):
    start, update, f = case['start'], case['update'], case['fault']
    key = (start, update)
    if key not in _prevnext:
        d = fresh(ctx.scratch, start)
        old = summary(d)
        res, text, ops = faults.run(d + '/run/grid', lambda: do_update(d, update))
        require(res == 'ok', 'update without faults failed: %s', text)
        require(len(ops) > 0, 'update performs no file operation')
        _prevnext[key] = (old, summary(d))
    old, new = _prevnext[key]
    d = fresh(ctx.scratch, start)
    if f is None:
        require(summary(d) == old, 'replay diverged')
        return 'base', key
    res, text, ops = faults.run(d + '/run/grid', lambda: do_update(d, update), **f)
    ctx.step()
    if f['err'] == 0:
        require(res == 'killed', 'replay did not reach the crash point (%s %s)', res, text)
    try:
        got = summary(d)
    except Exception as e:
        require(False, 'index unreadable after the fault: %s: %s', type(e).__name__, e)
    require(got in (old, new), 'after the fault the index holds %s..., neither the old nor the new one', got[:300])
    which = 'old' if got == old else 'new'
    if res == 'ok':
        require(got == new, 'the update reported success but the index is the old one')
    # the next updates work, leftovers or not
    with contextlib.redirect_stdout(io.StringIO()):
        jobqueue.addJobIndex(d + '/run/grid', mkjob(4000, ['later']))
        idx = jobqueue.loadJobIndex(d + '/run/grid')
        require(idx.rootNames.get('later') == '4100', 'next update lost')
        jobqueue.deleteJobs(d + '/run/grid', rootNames=['later'])
    require(summary(d) == got, 'next updates gave a different index')
    ctx.step(2)
    return (start, update, f['err'], f['sticky'], res, which)


def scenarios(tier):
    return [Enum('crash', lambda: cases(tier), check)]
