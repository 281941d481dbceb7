"""Job scripts: each setting from its highest-precedence source, every tag replaced, one run command per parameter file."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys

from mc.core import Enum, require
from mc.fakequeue import FakeQueue
from mc.gridlib import quiet
from paramgrid import jobqueue

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = ('sources: for every setting, every subset of {argument, template default, environment} that defines it, alone and together with every other setting from each source; geometry: every combination of nodes, chains per node, cores, number of '
        'parameter files, combined or sequential, template with or without its own run command, queue system; names: every pair of parameter-file names of the alphabet; each script, command, queue call, file and index entry compared with a single-pass substitution of the template; '
        'defaults: every core count up to 130')
ASSUMPTIONS = ['queue commands are stand-ins', 'setting values contain no ##tag##', 'the number of cores per node is a multiple of the runs on it (otherwise refused)']

BODY = '''#!/bin/bash
#name ##JOBNAME## walltime ##WALLTIME## nodes=##NUMNODES##:ppn=##PPN## q=##QUEUE##/##JOBCLASS##
#mem ##MEM_MB## slots ##NUMSLOTS## tasks ##NUMTASKS## mpi ##NUMMPI## per ##MPIPERNODE## ##CHAINSPERNODE## runs ##NUMRUNS##
cd ##ROOTDIR##
export OMP_NUM_THREADS=##OMP##
pin=##ONERUN## prog=##PROGRAM##
### a comment ##NOTATAG## #JOBNAME# ##JOBNAME##_##JOBNAME##
##COMMAND##
wait
'''
RUN = '##RUN: mpirun -n ##NUMMPI## -p ##CHAINSPERNODE## ##PROGRAM## ##INI## > logs/##INIBASE##.log 2>&1 ##\n'
# name: (values for argument, template, environment), tag
SETTINGS = {'nodes': (3, 2, 5), 'chainsPerNode': (4, 2, 8), 'coresPerNode': (16, 24, 32), 'mem_per_node': (1000, 2000, 3000), 'walltime': ('1:00:00', '2:30:00', '48:00:00'),
            'program': ('./prog_a', 'bin/prog t', '/x/prog'), 'queue': ('qa', 'qt', 'qe'), 'jobclass': ('ca', 'ct', 'ce'), 'qsub': ('mysub -a ##NUMSLOTS##', 'mysub -t', 'mysub -e ##NUMNODES##:##PPN##:##JOBNAME##'), 'qdel': ('mydel -a', 'mydel -t', 'mydel -e')}
DEFAULT = {'mem_per_node': 63900, 'walltime': '24:00:00', 'program': './cosmomc', 'queue': '', 'jobclass': '', 'qsub': 'qsub', 'qdel': 'qdel'}
GEOM = ('nodes', 'chainsPerNode', 'coresPerNode')


def expand(txt, vals):
    return re.sub(r'##(\w+)##', lambda m: str(vals[m.group(1)]) if m.group(1) in vals else m.group(0), txt)


@contextlib.contextmanager
def place(ctx, fmt='pbs'):
    d = ctx.newdir()
    cwd = os.getcwd()
    env = dict(os.environ)
    try:
        for x in ('run', 'run/scripts'):
            os.mkdir(os.path.join(d, x))
        q = FakeQueue(os.path.join(d, 'bin'), os.path.join(d, 'state'), fmt)
        sub = os.path.join(d, 'bin', 'mysub')
        with open(sub, 'w') as f:
            f.write('#!/bin/sh\necho "mysub $@" >> "$FAKEQ/log"\nfor a in "$@"; do script="$a"; done\necho "777 qw $script" >> "$FAKEQ/queue"\necho 777\n')
        os.chmod(sub, 0o755)
        os.chdir(os.path.join(d, 'run'))
        yield d, q
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d, ignore_errors=True)


def check_job(ctx, q, template, name, files, val, sequential, extra, fname='job_script', how='call'):
    """submit and compare everything; val: effective settings"""
    before = {f: open(os.path.join(r, f)).read() for r, _, fs in os.walk('.') for f in fs}
    with quiet():
        if how == 'call':
            jobqueue.submitJob(name, list(files) if len(files) > 1 or sequential else files[0], sequential=sequential, **extra)
        else:
            run_mpi(files, extra)
    ctx.step()
    base = [f[:-4] if f.endswith('.ini') else f for f in files]
    runs = 1 if sequential else len(files)
    vals = dict(JOBNAME=name, OMP=val['coresPerNode'] // (val['chainsPerNode'] * runs), MEM_MB=val['mem_per_node'], WALLTIME=val['walltime'], NUMNODES=val['nodes'], NUMRUNS=runs,
                NUMMPI=val['nodes'] * val['chainsPerNode'], CHAINSPERNODE=val['chainsPerNode'], MPIPERNODE=val['chainsPerNode'] * runs, NUMTASKS=val['nodes'] * val['chainsPerNode'] * runs,
                ROOTDIR=os.getcwd(), ONERUN=int(len(files) == 1 or sequential), PROGRAM=val['program'], QUEUE=val['queue'], JOBCLASS=val['jobclass'])
    vals['PPN'] = vals['MPIPERNODE'] * vals['OMP']
    vals['NUMSLOTS'] = vals['PPN'] * vals['NUMNODES']
    require(vals['PPN'] <= val['coresPerNode'], 'more cores used than there are')
    root = './scripts/' + name
    require(os.path.exists(root + '_subscript'), 'no script %s', root)
    script = open(root + '_subscript').read()
    cmds = []
    own = re.search('##RUN:(.*)##', template)
    for b in base:
        if own:
            cmds.append(expand(own.group(1).strip(), dict(vals, INI=b + '.ini', INIBASE=os.path.basename(b))) + ('' if sequential else ' &'))
        else:
            cmds.append('time mpirun -np %s %s %s.ini > ./scripts/%s.ini.log 2>&1 %s' % (vals['NUMMPI'], val['program'], b, os.path.basename(b), '' if sequential else '&'))
    if own:
        # the definition of the run command is not part of what is executed
        body = [l for l in template.replace('\r', '').split('\n') if not l.startswith('##RUN:')]
        got = [l for l in script.split('\n') if not l.startswith('##RUN:')]
    else:
        body, got = template.replace('\r', '').split('\n'), script.split('\n')
    want = '\n'.join(expand(l, dict(vals, COMMAND='\n'.join(cmds))) for l in body)
    norm = lambda t: [l.rstrip() for l in t.split('\n')]
    require(norm('\n'.join(got)) == norm(want), 'script differs: %r', [(u, v) for u, v in itertools.zip_longest(norm('\n'.join(got)), norm(want)) if u != v][:3])
    want_files = {name + '_subscript', name + '.sub'}
    if len(files) > 1:
        want_files.add(name + '.batch')
        require(open(root + '.batch').read().split('\n') == base, 'batch file lists %r', open(root + '.batch').read())
    new = set(os.listdir('scripts'))
    require(want_files <= new and all('jobindex' in f.lower() or f in want_files for f in new), 'files written: %s', sorted(new))
    for f, t in before.items():
        if f not in want_files and 'jobindex' not in f.lower():
            require(any(f in fs and open(os.path.join(r, f)).read() == t for r, _, fs in os.walk('.')), '%s was changed', f)
    log = q.take_log()
    call = expand(val['qsub'], vals)
    require(log == ['%s %s_subscript' % (call, root)], 'queue calls %s, expected %s', log, call)
    jid = q.jobs()[-1][0]
    require(open(root + '.sub').read().strip() == jid, 'job id file has %r for %s', open(root + '.sub').read(), jid)
    with quiet():
        ix = jobqueue.loadJobIndex(extra.get('batchPath'))
    require(list(ix.jobSettings) == [jid] and ix.jobNames == {name: jid}, 'index holds %s, %s', list(ix.jobSettings), ix.jobNames)
    require(set(ix.rootNames) == {os.path.basename(b) for b in base}, 'index has chains %s', sorted(ix.rootNames))
    j = ix.jobSettings[jid]
    require(j.nodes == val['nodes'] and j.chainsPerNode == val['chainsPerNode'] and j.coresPerNode == val['coresPerNode'] and j.nchains == vals['NUMMPI'] and j.walltime == val['walltime'] and j.qdel == val['qdel'] and list(j.names) == [os.path.basename(b) for b in base],
            'index entry has other settings')
    return tuple(sorted((k, str(v)) for k, v in vals.items() if k not in ('ROOTDIR', 'JOBNAME')))


def run_mpi(files, extra):
    import runpy
    old = sys.argv
    args = []
    for k, v in extra.items():
        if k == 'batchPath':
            continue
        args += ['--' + k, str(v)]
    sys.argv = ['runMPI.py'] + list(files) + args
    try:
        runpy.run_path(os.path.join(os.environ['MC_REPO'], 'python', 'runMPI.py'), run_name='__main__')
    finally:
        sys.argv = old


def effective(have):
    """have: {setting: subset of (arg, template, env) as bits}"""
    val = dict(DEFAULT)
    for s, m in have.items():
        for bit in (0, 1, 2):
            if m & (1 << bit):
                val[s] = SETTINGS[s][bit]
                break
    return val


def gen_src():
    base = {'nodes': 2, 'chainsPerNode': 2, 'coresPerNode': 2}
    for s in SETTINGS:
        for m in range(8):
            if s in GEOM and not m:
                continue
            yield dict(base, **{s: m})
    for s, t in itertools.combinations(SETTINGS, 2):
        for m, n in itertools.product((1, 2, 4, 6, 5), repeat=2):
            yield dict(base, **{s: m, t: n})


def chk_src(ctx, have, how='call'):
    with place(ctx) as (d, q):
        tmpl = BODY
        args = {}
        for s, m in have.items():
            if m & 1:
                args[s] = SETTINGS[s][0]
            elif how == 'call' and s in ('queue', 'walltime'):
                args[s] = None
            if m & 2:
                tmpl = '##DEFAULT_%s: %s ##\n' % (s, SETTINGS[s][1]) + tmpl
            if m & 4:
                os.environ['COSMOMC_' + s] = str(SETTINGS[s][2])
        with open('job_script', 'w') as f:
            f.write(tmpl)
        return check_job(ctx, q, tmpl, 'j1', ['inis/j1.ini'] if how != 'call' else ['inis/a.ini'], effective(have), False, args if how != 'call' else dict(args, batchPath='./'), how=how)


def gen_geom():
    for nodes, cpn, mult, nf, seq, run, fmt in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 4), (1, 2, 3), (False, True), (False, True), ('pbs', 'ogs', 'plain', 'starcluster')):
        if fmt != 'pbs' and (nodes == 3 or mult == 4):
            continue
        yield [nodes, cpn, cpn * nf * mult, nf, seq, run, fmt]


def chk_geom(ctx, case):
    nodes, cpn, cores, nf, seq, run, fmt = case
    with place(ctx, 'ogs' if fmt == 'starcluster' else fmt) as (d, q):
        if fmt == 'starcluster':
            os.environ['SGE_CLUSTER_NAME'] = fmt
        tmpl = (RUN if run else '') + BODY.replace('\n', '\r\n' if run and seq else '\n')
        fn = 'other_template' if nodes == 2 else 'job_script'
        with open(fn, 'w', newline='') as f:
            f.write(tmpl)
        args = dict(nodes=nodes, chainsPerNode=cpn, coresPerNode=cores, batchPath='./')
        if fn != 'job_script':
            with open('job_script', 'w') as f:
                f.write('wrong')
            args['job_template'] = fn
        val = dict(DEFAULT, nodes=nodes, chainsPerNode=cpn, coresPerNode=cores)
        if fmt == 'starcluster':
            val['qsub'] = 'qsub -pe orte ##NUMSLOTS##'
        return check_job(ctx, q, tmpl, 'job', ['inis/p%s.ini' % i for i in range(nf)], val, seq, args)


FILES = ['a.ini', 'inis/a.ini', 'inis/b', 'x/my.initial.ini', 'b.ini.d/c.ini', 'inis/d.e_f.ini', '.inis/g']


def gen_names():
    for f in FILES:
        for run in (False, True):
            yield [[f], run, False]
            for g in FILES:
                if os.path.basename(f.replace('.ini', '')) != os.path.basename(g.replace('.ini', '')):
                    for seq in (False, True):
                        yield [[f, g], run, seq]


def chk_names(ctx, case):
    files, run, seq = case
    with place(ctx) as (d, q):
        tmpl = (RUN if run else '') + BODY
        with open('job_script', 'w') as f:
            f.write(tmpl)
        val = dict(DEFAULT, nodes=1, chainsPerNode=1, coresPerNode=4)
        return check_job(ctx, q, tmpl, 'nm', files, val, seq, dict(nodes=1, chainsPerNode=1, coresPerNode=4, batchPath='./')) and str(case)


def gen_mpi():
    base = {'nodes': 1, 'chainsPerNode': 1, 'coresPerNode': 1}
    for s in SETTINGS:
        for m in range(1, 8):
            if s == 'qdel' and m & 1:
                continue  # not an option of the script
            yield dict(base, **{s: m | (1 if s in GEOM else 0)})


def chk_mpi(ctx, have):
    return chk_src(ctx, have, 'mpi')


def gen_bad():
    for cpn, cores, runs in itertools.product((1, 2, 3), range(1, 13), (1, 2, 3)):
        yield [cpn, cores, runs]


def chk_bad(ctx, case):
    cpn, cores, runs = case
    with place(ctx) as (d, q):
        with open('job_script', 'w') as f:
            f.write(BODY)
        try:
            with quiet():
                jobqueue.checkArguments(chainsPerNode=cpn, coresPerNode=cores, nodes=1, runsPerJob=runs)
            ok = True
        except Exception:
            ok = False
        ctx.step()
        require(ok == (cores % (cpn * runs) == 0), '%s chains per node, %s cores, %s runs: %s', cpn, cores, runs, 'accepted' if ok else 'refused')
        require(q.take_log() == [] and os.listdir('scripts') == [], 'checking the arguments submitted or wrote something')
        return ok


def gen_def():
    for cores in list(range(1, 34)) + [40, 48, 63, 64, 65, 128]:
        yield cores


def chk_def(ctx, cores):
    import multiprocessing
    real = multiprocessing.cpu_count
    with place(ctx) as (d, q):
        with open('job_script', 'w') as f:
            f.write(BODY)
        multiprocessing.cpu_count = lambda: cores
        try:
            with quiet():
                j = jobqueue.jobSettings('n')
        finally:
            multiprocessing.cpu_count = real
        ctx.step()
        require(j.coresPerNode == (cores if cores <= 64 else 8), '%s cores per node on a machine with %s', j.coresPerNode, cores)
        require(j.coresPerNode % j.chainsPerNode == 0 and j.omp * j.chainsPerNode == j.coresPerNode and j.nchains == j.nodes * j.chainsPerNode >= 1, 'default layout %s x %s on %s cores', j.nodes, j.chainsPerNode, cores)
        require(j.program == './cosmomc' and j.runsPerJob == 1 and j.walltime == '24:00:00', 'defaults')
        return (j.nodes, j.chainsPerNode, int(j.omp))


def scenarios(tier):
    return [Enum('sources', gen_src, chk_src), Enum('geometry', gen_geom, chk_geom), Enum('names', gen_names, chk_names), Enum('runmpi', gen_mpi, chk_mpi), Enum('refused', gen_bad, chk_bad),
            Enum('defaults', gen_def, chk_def)]
