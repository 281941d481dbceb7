"""Maintenance commands: cleanup, copyGridFiles, renameParam, extractDistFiles, deleteJobs."""
import fnmatch
import itertools
import os
import shutil
import time
import zipfile

from mc.core import Enum, require
from mc import gridlib
from mc.fakequeue import FakeQueue
from mc.gridlib import run_script, tree, write
from paramgrid import batchjob, jobqueue
from getdist import IniFile
from getdist.paramnames import ParamNames
from getdist.types import BestFit

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = ('every combination of the options of each command (clean, copy to directory / zip / links, rename, extract, cancel jobs) in the alphabet, over item selections, run on a scratch grid with '
        'full runs, importance runs, nested importance runs and unrelated files in the same directories; the whole directory tree is compared before and after, and after running again; '
        'copying: also every ordered pair of copy commands into one target')
ASSUMPTIONS = ['best-fit files have labels', 'commands run on a grid that was made by makeGrid or saved by it', 'destructive calls outside the scratch directory are refused by a wrapper']


def I(names, form='list', want=None):
    return dict(names=names, inis=[n + '.ini' for n in names], form=form, want=want, dist=None, min=True)


SPEC = dict(groups=[dict(name='g', params=[[], ['mnu']], data=[['A', None, None], [['A', 'B'], None, None]], imp=[I(['C']), I(['C', 'D'])])],
            filters=[I(['f'], 'filter', ['noparam', 'mnu'])], skip=[])
NAMES = 'omegabh2\t\\Omega_b h^2\nns\tn_s\nA*\tA\nmnu*\t\\Sigma m_\\nu\n'
MIN = ''' -log(Like) =   5633.7204166
  chi-sq    =  11267.4408

    1  0.2212E-01   omegabh2              \\Omega_b h^2
    2  0.9655E+00   ns                    n_s

    3  0.6000E-01   fixed1                m_f

   11  0.1234E+01   A                     A
   12  0.5000E+00   mnu                   \\Sigma m_\\nu

 -log(Like)     chi-sq   data
   5.0 10.0   CMB: ns = omegabh2
'''
R = {'base_A': '0.005', 'base_A_post_C': '0.02', 'base_mnu_A': '0.5', 'base_A_B': None, 'base_A_post_C_D': '0.5'}


def conv(r):
    return ' R-1 values\n var(mean)/mean(var) for eigenvalues of covariance of means of orthonormalized parameters\n   1  0.00001\n   2   %s\n\n' % r


def rows(n, off):
    return ''.join('  0.1000000E+01  %d.5 0.022%d 0.96 1.%d 0.06\n' % (i + off, i, i) for i in range(n))


def mkgrid(ctx):
    """fresh grid in the worker's scratch directory"""
    d = os.path.join(ctx.scratch, 'g19') + os.sep
    if getattr(ctx, 'c19', None) is None:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        b = batchjob.batchJob(d, 'ini/')
        with gridlib.quiet():
            b.makeItems(gridlib.mk_settings(SPEC))
        b.save()
        items = []
        for n, j in enumerate(b.items(wantImportance=True)):
            items.append(dict(name=j.name, imp=j.isImportanceJob, rel=j.relativePath, root=j.chainRoot, paramtag=j.paramtag, names=list(j.data_set.names), params=list(j.param_set)))
            cr = j.chainRoot
            nch = [2, 3, 1][n % 3]
            for i in range(nch):
                write('%s_%d.txt' % (cr, i + 1), rows([4, 1, 7][(n + i) % 3], 10 * n + i))
            if n % 4 == 1:
                write('%s_%d.txt' % (cr, nch + 1), '')
            write(cr + '_1.chk', 'chk %d' % n)
            write(cr + '_1.log', 'log %d' % n)
            write(cr + '.log', 'log')
            write(cr + '.paramnames', NAMES)
            write(cr + '.ranges', 'ns 0.8 1.2\nmnu 0 N\n# %d\n' % n)
            write(cr + '.inputparams', 'a = %d\n' % n)
            if n % 2 == 0:
                write(cr + '.properties.ini', 'some = %d\n' % n)
            if n % 3 != 1:
                write(cr + '.minimum', MIN)
            if n % 5 != 4:
                for ext in ('.margestats', '.likestats', '.py', '_2D.py', '_tri.m'):
                    write(j.distRoot + ext, 'dist %d' % n)
                if R.get(j.name):
                    write(j.distRoot + '.converge', conv(R[j.name]))
            else:
                items[-1]['nodist'] = True
        # unrelated files
        write(d + 'base/A/notes.txt', 'mine')
        write(d + 'base/A/base_AB.paramnames', 'mine')
        write(d + 'base/A/other_base_A_1.txt', '1 1 1')
        write(d + 'base/A/base_A_post_Z_1.txt', '1 2 3')
        write(d + 'base/A/dist/base_A2.margestats', 'mine')
        write(d + 'config/config.ini', 'setting_file = s.py\n')
        write(d + 'config/s.py', 'x=1\n')
        ctx.c19 = items, tree(d)
    items, snap = ctx.c19
    gridlib.restore(d, snap)
    return d, items, snap


def owner(items, rel):
    """the item a file belongs to"""
    dd, f = os.path.split(rel)
    best = None
    for it in items:
        if dd + os.sep in (it['rel'], it['rel'] + 'dist' + os.sep) and f.startswith((it['name'] + '.', it['name'] + '_')):
            if not it['imp'] and f.startswith(it['name'] + '_post_'):
                continue
            if best is None or len(it['name']) > len(best['name']):
                best = it
    return best


SEL = [[], ['--noimportance'], ['--name', 'base_A'], ['--name', 'base_A_post_C'], ['--importance'], ['--data', 'B'], ['--paramtag', 'base_mnu', '--importance', 'D']]


def selected(it, sel):
    if '--noimportance' in sel and it['imp']:
        return False
    if '--importance' in sel and not it['imp']:
        return False
    if sel[:1] == ['--name'] and it['name'] != sel[1]:
        return False
    if sel[:1] == ['--data'] and 'B' not in it['names']:
        return False
    if sel[:1] == ['--paramtag']:
        return it['paramtag'] == 'base_mnu' and 'D' in it['names']
    return True


# ---- cleanup
EXT = [None, ['txt'], ['paramnames', 'chk'], ['m*'], ['py']]


def clean_gen():
    for sel in range(len(SEL)):
        for ext in range(len(EXT)):
            for empty, dist, confirm in itertools.product((0, 1), repeat=3):
                for chainnum in (None, '1', '3'):
                    for c in (None, '0.1'):
                        yield [sel, ext, empty, dist, confirm, chainnum, c]


def clean_check(ctx, case):
    d, items, snap = mkgrid(ctx)
    sel, ext, empty, dist, confirm, chainnum, c = case
    a = [d] + SEL[sel]
    if EXT[ext]:
        a += ['--ext'] + EXT[ext]
    a += ['--empty'] * empty + ['--dist'] * dist + ['--confirm'] * confirm
    if chainnum:
        a += ['--chainnum', chainnum]
    if c:
        a += ['--converge', c]
    exp = dict(snap)
    for rel in snap:
        it = owner(items, rel)
        if it is None or not selected(it, SEL[sel]):
            continue
        if c and not (R.get(it['name']) and not it.get('nodist') and float(R[it['name']]) > float(c)):
            continue
        indist = os.path.dirname(rel).endswith('dist')
        if dist and not indist:
            continue
        if empty and len(snap[rel]):
            continue
        rest = os.path.basename(rel)[len(it['name']):]
        pats = EXT[ext] or ['*']
        pats = ['_' + chainnum + '.' + p for p in pats] if chainnum else ['.' + p for p in pats] + ['_*.' + p for p in pats]
        if any(fnmatch.fnmatchcase(rest, p) for p in pats):
            del exp[rel]
    removed = sorted(set(snap) - set(exp))
    for n in range(2):
        ctx.step()
        run_script('cleanup.py', a, d)
        now = tree(d)
        e = exp if confirm else snap
        require(now == e, 'cleanup %s: wrongly removed %r, wrongly kept %r', ' '.join(a[1:]), sorted(set(e) - set(now)), sorted(set(now) - set(e)))
        if not removed:
            break
    return removed


# ---- copy
def copy_opts():
    for sel in (0, 1, 2, 4):
        for mode in ('dir', 'zip', 'zipext', 'link'):
            for chains, dist, noconf in itertools.product((0, 1), repeat=3):
                for burn in (None, '0.3', '0.25', '1.0'):
                    if burn and (mode == 'link' or not chains):
                        continue
                    for ext in (0, 1, 2):
                        for c in (None, '0.1'):
                            yield [sel, mode, chains, dist, noconf, burn, ext, c]


CEXT = [[], ['--file_extensions', '.paramnames', '.margestats'], ['--skip_extensions', '.ranges', '.py']]
DEFSKIP = ['.data', '.chk', '.chk_tmp', '.log', '.corr', '.py', '.m', '.py_mcsamples', '.pysamples']


def copy_gen(tier):
    for o in copy_opts():
        for dry in (0, 1):
            if dry and o[6] and tier == 'quick':
                continue
            yield [o, dry]


def copy_args(d, target, o):
    sel, mode, chains, dist, noconf, burn, ext, c = o
    a = [d, target] + SEL[sel] + ['--chains'] * chains + ['--dist'] * dist + ['--no_config'] * noconf + ['--sym_link'] * (mode == 'link') + ['--zip'] * (mode == 'zip')
    if burn:
        a += ['--remove_burn_fraction', burn]
    if c:
        a += ['--converge', c]
    return a + CEXT[ext]


def copy_expect(d, items, snap, o):
    """relative name -> acceptable contents"""
    sel, mode, chains, dist, noconf, burn, ext, c = o
    exts = ['.paramnames', '.margestats'] if ext == 1 else ['.*']
    skip = ['.ranges', '.py'] if ext == 2 else DEFSKIP
    res = {}
    if not noconf:
        for f in ('config/config.ini', 'config/s.py'):
            res[f] = [snap[f]]
    for it in items:
        if not selected(it, SEL[sel]):
            continue
        if c and not (R.get(it['name']) and not it.get('nodist') and float(R[it['name']]) <= float(c)):
            continue
        burned = False
        if chains:
            i = 1
            while it['rel'] + '%s_%d.txt' % (it['name'], i) in snap:
                rel = it['rel'] + '%s_%d.txt' % (it['name'], i)
                res[rel] = [snap[rel]]
                if burn and not it['imp']:
                    lines = snap[rel].splitlines(True)
                    x = len(lines) * float(burn)
                    cuts = [int(round(x))] if abs(x - round(x)) < 1e-6 else [int(x), int(x) + 1]
                    res[rel] = [b''.join(lines[k:]) for k in cuts]
                    burned = True
                i += 1
        for sub in [''] + ['dist' + os.sep] * dist:
            for rel in snap:
                if os.path.dirname(rel) + os.sep == it['rel'] + sub and os.path.basename(rel).startswith(it['name']):
                    rest = os.path.basename(rel)[len(it['name']):]
                    if any(fnmatch.fnmatchcase(rest, e) for e in exts) and not any(fnmatch.fnmatchcase(rest, e) for e in skip):
                        res[rel] = [snap[rel]]
        if burned:
            res[it['rel'] + it['name'] + '.properties.ini'] = 'burned'
    return res


def check_copy(d, target, o, items, snap, exp, what):
    if o[1].startswith('zip'):
        with zipfile.ZipFile(target) as z:
            names = z.namelist()
            require(len(names) == len(set(names)), '%s: duplicate names in zip', what)
            got = {n: z.read(n) for n in names}
    else:
        got = {k: v for k, v in tree(target).items() if v != 'dir'}
    require(set(got) == set(exp), '%s: wrongly missing %r, wrongly copied %r', what, sorted(set(exp) - set(got)), sorted(set(got) - set(exp)))
    for rel, e in exp.items():
        g = got[rel]
        if o[1] == 'link':
            require(g == ('link', os.path.realpath(os.path.join(d, rel))), '%s: %s is %r', what, rel, g)
            continue
        if e == 'burned':
            ini = IniFile()
            ini.readFile  # noqa
            vals = dict(line.split('=', 1) for line in g.decode().splitlines() if '=' in line)
            vals = {k.strip(): v.strip() for k, v in vals.items()}
            orig = snap.get(rel, b'').decode()
            require(vals.pop('burn_removed', 'F')[0] in 'T1', '%s: %s does not say that burn in was removed: %r', what, rel, g)
            require(vals == {k.strip(): v.strip() for k, v in (line.split('=', 1) for line in orig.splitlines())}, '%s: properties %s are %r', what, rel, g)
        else:
            require(g in e, '%s: %s is %r, should be %r', what, rel, g, e)


def copy_check(ctx, case):
    d, items, snap = mkgrid(ctx)
    o, dry = case
    td = os.path.join(ctx.scratch, 'copy19')
    shutil.rmtree(td, ignore_errors=True)
    os.makedirs(td)
    target = os.path.join(td, {'zip': 'z', 'zipext': 'z.zip'}.get(o[1], 'out'))
    a = copy_args(d, target, o)
    what = 'copyGridFiles ' + ' '.join(a[2:])
    if dry:
        if o[1].startswith('zip'):
            write(target, 'existing file')
        b4 = tree(td)
        run_script('copyGridFiles.py', a + ['--dryrun'], ctx.scratch)
        require(tree(td) == b4, '%s --dryrun changed the target: %r', what, sorted(tree(td)))
        require(tree(d) == snap, '%s --dryrun changed the grid', what)
        return None
    exp = copy_expect(d, items, snap, o)
    for n in range(2):
        ctx.step()
        run_script('copyGridFiles.py', a, ctx.scratch)
        require(tree(d) == snap, '%s changed the grid: %r', what, diff(tree(d), snap))
        check_copy(d, target, o, items, snap, exp, what)
    return sorted(exp)


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


PAIR = [[0, 'dir', 1, 1, 0, None, 0, None], [1, 'dir', 1, 0, 0, '0.25', 0, None], [2, 'dir', 0, 1, 1, None, 1, None], [0, 'link', 1, 1, 0, None, 0, None], [1, 'link', 1, 0, 1, None, 0, None],
        [0, 'dir', 1, 0, 0, '0.3', 2, '0.1'], [0, 'dir', 1, 0, 0, '1.0', 0, None]]


def pair_gen():
    for i, j in itertools.product(range(len(PAIR)), repeat=2):
        if PAIR[j][1] == 'link' and PAIR[i][1] != 'link':
            continue  # links are not made over real files
        yield [i, j]


def pair_check(ctx, case):
    d, items, snap = mkgrid(ctx)
    td = os.path.join(ctx.scratch, 'copy19p')
    shutil.rmtree(td, ignore_errors=True)
    os.makedirs(td)
    exps = []
    for k in case:
        o = PAIR[k]
        a = copy_args(d, td, o)
        ctx.step()
        run_script('copyGridFiles.py', a, ctx.scratch)
        require(tree(d) == snap, 'copyGridFiles %s after %r changed the grid: %r', ' '.join(a[2:]), case, diff(tree(d), snap))
        exps.append(copy_expect(d, items, snap, o))
    got = {k: v for k, v in tree(td).items() if v != 'dir'}
    require(set(got) == set(exps[0]) | set(exps[1]), 'files %r', diff(got, dict(exps[0], **exps[1])))
    for rel in got:
        k = 1 if rel in exps[1] else 0
        o = PAIR[case[k]]
        e = exps[k][rel]
        if o[1] == 'link':
            require(got[rel] == ('link', os.path.realpath(os.path.join(d, rel))), '%s is %r', rel, got[rel])
        elif e != 'burned':
            require(got[rel] in e, '%s is %r, should be %r', rel, got[rel], e)
        else:
            require(not isinstance(got[rel], tuple) and b'burn_removed=T' in got[rel].replace(b' ', b''), '%s is %r', rel, got[rel])
    return sorted(got)


def age_gen():
    for chains, dist, old, days in itertools.product((0, 1), (0, 1), range(4), ('0', '2', '30')):
        yield [chains, dist, old, days]


def age_check(ctx, case):
    """only recent files are copied"""
    d, items, snap = mkgrid(ctx)
    chains, dist, old, days = case
    td = os.path.join(ctx.scratch, 'copy19a')
    shutil.rmtree(td, ignore_errors=True)
    now = time.time()
    ages = {}
    for n, rel in enumerate(sorted(k for k in snap if snap[k] != 'dir')):
        age = [0, 5, 40][(n + old) % 3] if old else 0
        if rel.endswith('.txt'):
            age = [0, 5, 40][(sum(map(ord, os.path.dirname(rel))) + old) % 3]
        ages[rel] = age
        os.utime(d + rel, (now - age * 86400 - 3600, now - age * 86400 - 3600))
    a = [d, td] + ['--chains'] * chains + ['--dist'] * dist + ['--no_config', '--max_age_days', days]
    run_script('copyGridFiles.py', a, ctx.scratch)
    for rel in snap:
        if snap[rel] != 'dir':
            os.utime(d + rel, (now, now))
    exp = copy_expect(d, items, snap, [0, 'dir', chains, dist, 1, None, 0, None])
    if float(days):
        exp = {rel: e for rel, e in exp.items() if ages[rel] <= float(days)}
    check_copy(d, td, [0, 'dir'], items, snap, exp, ' '.join(a[2:]) + ' ages %r' % old)
    return sorted(exp)


# ---- rename
MAPS = [['ns', 'n_s'], ['ns', 'mnu', 'mnu', 'ns'], ['A', 'a_rather_long_parameter_name', 'nosuch', 'x'], ['omegabh2', 'omegabh2'], ['zz', 'yy']]


def rename_gen():
    for sel in range(len(SEL)):
        for m in [None] + list(range(len(MAPS))):
            for lab in (0, 1):
                for mf in (0, 1):
                    if m is None and not lab and not mf:
                        continue
                    for confirm in (0, 1):
                        yield [sel, m, lab, mf, confirm]


def rename_check(ctx, case):
    d, items, snap = mkgrid(ctx)
    sel, m, lab, mf, confirm = case
    a = [d] + SEL[sel] + ['--confirm'] * confirm
    mapper = {}
    w = ctx.newdir()
    if mf:
        write(w + '/map', 'mnu mnu2 m_2 eV\n\nfixed1 fixed2 F\n')
        a += ['--map_file', w + '/map']
        mapper = {'mnu': ('mnu2', 'm_2 eV'), 'fixed1': ('fixed2', 'F')}
    if m is not None:
        a += ['--old_new'] + MAPS[m]
        for x, y in zip(MAPS[m][::2], MAPS[m][1::2]):
            mapper[x] = (y, None)
    labels = {}
    if lab:
        labels = {'n_s': 'ns new', 'omegabh2': '\\omega_b', 'mnu': 'sum m'}
        write(w + '/labels.paramnames', ''.join('%s %s\n' % x for x in labels.items()))
        a += ['--labelNames', w + '/labels.paramnames']

    def conv1(name, label):
        n, l = mapper.get(name, (name, None))
        l = label if l is None else l
        return n, labels.get(n, l)

    ctx.step()
    run_script('renameParam.py', a, ctx.scratch)
    now = tree(d)
    what = 'renameParam ' + ' '.join(a[1:])
    for rel in snap:
        it = owner(items, rel)
        touch = it is not None and selected(it, SEL[sel]) and rel == it['rel'] + it['name'] + os.path.splitext(rel)[1] and rel.endswith(('.paramnames', '.minimum'))
        if not touch or not confirm:
            require(now.get(rel) == snap[rel], '%s changed %s', what, rel)
            continue
        if rel.endswith('.paramnames'):
            got = [(p.name, p.label, p.isDerived) for p in ParamNames(d + rel).names]
            exp = []
            for line in NAMES.splitlines():
                n, l = line.split('\t')
                der = n.endswith('*')
                exp.append(conv1(n.rstrip('*'), l) + (der,))
            require(got == exp, '%s: %s has %r, should be %r', what, rel, got, exp)
        else:
            bf = BestFit(d + rel, want_fixed=True)
            got = [(p.number, p.name, p.label, p.best_fit) for p in bf.names]
            b0 = write(w + '/b.minimum', MIN) or BestFit(w + '/b.minimum', want_fixed=True)
            exp = [(p.number,) + conv1(p.name, p.label) + (p.best_fit,) for p in b0.names]
            require(got == exp, '%s: %s has %r, should be %r', what, rel, got, exp)
            require(bf.logLike == b0.logLike and [(k, c.name, c.tag, c.chisq) for k, c in bf.chiSquareds] == [(k, c.name, c.tag, c.chisq) for k, c in b0.chiSquareds], '%s changed likelihoods', what)
    require(set(now) == set(snap), '%s: files %r', what, diff(now, snap))
    shutil.rmtree(w)
    return len(diff(now, snap))


# ---- extractDistFiles
def extract_gen():
    for sel in range(len(SEL)):
        for ext in (['margestats'], ['.likestats', 'converge'], ['_2D.py'], ['nosuch']):
            for norm in (0, 1, 2):
                for c in (None, '0.1'):
                    yield [sel, ext, norm, c]


def extract_check(ctx, case):
    d, items, snap = mkgrid(ctx)
    sel, ext, norm, c = case
    td = ctx.newdir()
    a = [d, td + '/out'] + ext + SEL[sel]
    if norm:
        a += ['--normalize_names']
    if norm == 2:
        a += ['--tag_replacements', 'A', 'Z', 'C', '']
    if c:
        a += ['--converge', c]
    run_script('extractDistFiles.py', a, ctx.scratch)
    require(tree(d) == snap, 'extractDistFiles changed the grid')
    exp = {}
    for e in ext:
        pat = e if '.' in e else '.' + e
        for it in items:
            rel = it['rel'] + 'dist' + os.sep + it['name'] + pat
            if selected(it, SEL[sel]) and rel in snap and (not c or (R.get(it['name']) and float(R[it['name']]) <= float(c))):
                if norm:
                    names = [{'A': 'Z', 'C': ''}.get(n, n) if norm == 2 else n for n in it['names']]
                    out = '_'.join(['base'] + sorted(it['params']) + ['_'.join(sorted(n for n in names if n))]) + os.path.splitext(rel)[1]
                else:
                    out = it['name'] + pat
                exp.setdefault(out, []).append(snap[rel])
    got = tree(td + '/out')
    require(set(got) == set(exp), 'extracted %r, should be %r', sorted(got), sorted(exp))
    for f in got:
        require(got[f] in exp[f], 'content of %s', f)
    shutil.rmtree(td)
    return sorted(got)


# ---- deleteJobs
JOBS = [['jA', ['base_A']], ['jAB', ['base_A_B', 'base_mnu_A']], ['jC', ['base_A_post_C']], ['jmin', ['base_A_minimize']], ['jother', ['elsewhere']], ['jA2', ['base_mnu_A_B']]]


def del_gen():
    sels = [[], ['--noimportance'], ['--name', 'base_A'], ['--name', 'base_A_post_C'], ['--paramtag', 'base_mnu']]
    ids = [['--delete_id_min', '103'], ['--delete_id_range', '102', '104'], ['--delete_id_range', '105', '105'], ['--delete_ids', '101'], ['--delete_ids', '106', '102', '999']]
    for fmt in ('plain', 'pbs'):
        for s in sels + ids:
            for state in ([], ['--queued'], ['--running']):
                for confirm in (0, 1):
                    for qs in range(3):
                        yield [fmt, s, state, confirm, qs]


def del_check(ctx, case):
    fmt, s, state, confirm, qs = case
    d, items, snap = mkgrid(ctx)
    base = os.path.join(ctx.scratch, 'del19')
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + '/scripts')
    fq = FakeQueue(os.path.join(ctx.scratch, 'bin19'), base + '/fq', fmt)
    cwd = os.getcwd()
    os.chdir(base)
    try:
        write(base + '/job_script', '#!/bin/sh\n##DEFAULT_nodes: 1##\n##DEFAULT_chainsPerNode: 1##\n##DEFAULT_coresPerNode: 8##\n##COMMAND##\n')
        with gridlib.quiet():
            for name, roots in JOBS:
                jobqueue.submitJob(name, [r + '.ini' for r in roots], batchPath=d)
        ids = ['%d%s' % (101 + i, '.host' if fmt == 'pbs' else '') for i in range(len(JOBS))]
        q = [[j[0], 'r' if (i + qs) % 2 else 'qw', j[2]] for i, j in enumerate(fq.jobs()) if not (qs == 2 and i in (0, 2))]
        fq.set_jobs(q)
        fq.take_log()
        run_script('deleteJobs.py', [d] + s + state + ['--confirm'] * confirm, ctx.scratch)
        if s[:1] == ['--delete_id_min']:
            sel = [i for i in range(6) if 101 + i >= int(s[1])]
        elif s[:1] == ['--delete_id_range']:
            sel = [i for i in range(6) if int(s[1]) <= 101 + i <= int(s[2])]
        elif s[:1] == ['--delete_ids']:
            sel = [i for i in range(6) if str(101 + i) in s[1:]]
        else:
            nm = [it['name'] for it in items if not ('--noimportance' in s and it['imp']) and not (s[:1] == ['--name'] and it['name'] != s[1]) and not (s[:1] == ['--paramtag'] and it['paramtag'] != s[1])]
            nm += [n + '_minimize' for n in nm]
            sel = [i for i in range(6) if set(JOBS[i][1]) & set(nm)]
        st = {j[0]: j[1] for j in q}
        if state:
            want = 'r' if state == ['--running'] else 'qw'
            sel = [i for i in sel if st.get(ids[i]) == want]
        log = fq.take_log()
        exp = ['qdel ' + ids[i] for i in sel if ids[i] in st] if confirm else []
        require(sorted(log) == sorted(exp), 'deleteJobs %r: queue commands %r, should be %r', s + state, log, exp)
        idx = jobqueue.loadJobIndex(d)
        left = [ids[i] for i in range(6) if not (confirm and i in sel)]
        require(list(idx.jobSequence) == left and set(idx.jobSettings) == set(left), 'deleteJobs %r: index has %r, should have %r', s + state, idx.jobSequence, left)
        now = tree(d)
        now.pop('jobIndex.pyobj')
        require(now == snap, 'grid changed: %r', diff(now, snap))
    finally:
        os.chdir(cwd)
    return log


def scenarios(tier):
    return [Enum('clean', clean_gen, clean_check), Enum('copy', lambda: copy_gen(tier), copy_check), Enum('copy_pairs', pair_gen, pair_check), Enum('copy_age', age_gen, age_check),
            Enum('rename', rename_gen, rename_check), Enum('extract', extract_gen, extract_check), Enum('delete_jobs', del_gen, del_check)]
