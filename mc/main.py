"""python -m mc.main <ID> [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STOP = int(os.environ.get('MC_STOP', '3'))  # violations after which a worker stops
FAST = 'MC_STOP' in os.environ  # (mutation runs only) stop at the first violation


def load_known(prop):
    """known (unrepaired) findings: lines 'known: property=<id> scenario=<name> case=<json>  # text'"""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    body, _, text = line.partition(' ## ')
                    sc = body.split('scenario=')[1].split(' ')[0]
                    case = json.loads(body.split('case=', 1)[1])
                    res.append((sc, case, text.strip()))
    return res


def worker(args):
    prop, tier, task, scratch = args
    from mc import core
    # ordinary output of the code under test is irrelevant here, and must never reach our stdout
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    t0 = time.time()
    wdir = tempfile.mkdtemp(prefix='w', dir=scratch)
    os.environ['TMPDIR'] = wdir
    tempfile.tempdir = wdir
    os.environ['XDG_CACHE_HOME'] = os.path.join(wdir, 'xdg')
    os.chdir(wdir)
    ctx = core.Ctx(prop, tier, wdir)
    try:
        mod = importlib.import_module('mc.props.' + prop.lower())
        scs = {s.name: s for s in mod.scenarios(tier)}
        sc = scs[task[0]]
        viol, samples, succ, err = [], [], [], None
        if sc.kind == 'enum':
            viol, samples = core.run_enum(ctx, sc, task[1], task[2], STOP)
        else:
            for config, hist in task[1]:
                if hist is None:
                    v, key = core.run_bfs_root(ctx, sc, config)
                    s = [] if v else [([], key)]
                else:
                    v, s = core.run_bfs_expand(ctx, sc, config, hist, STOP)
                viol += v
                succ += [(config, h, key) for h, key in s]
                if len(viol) >= STOP:
                    break
    except core.HarnessError:
        viol, samples, succ, err = [], [], [], traceback.format_exc()
    except BaseException:
        viol, samples, succ, err = [], [], [], traceback.format_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(wdir, ignore_errors=True)
    return dict(task=task, viol=viol, samples=samples, err=err, succ=succ, evaluations=ctx.evaluations,
                transitions=ctx.transitions, outcomes=ctx.outcomes, wall=time.time() - t0)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    p.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '8')))
    p.add_argument('--scenario')
    a = p.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % prop)
    rc = 0
    try:
        from mc import core
        mod = importlib.import_module('mc.props.' + prop.lower())
        scs = mod.scenarios(tier)
        if a.scenario:
            scs = [s for s in scs if s.name == a.scenario]
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            os.chdir(scratch)
            ctx = core.Ctx(prop, tier, scratch)
            bad = 0
            for v in rep['violations']:
                sc = [s for s in mod.scenarios('thorough') + scs if s.name == v['scenario']][-1]
                err, out = core.replay_case(ctx, sc, v['case'])
                print(json.dumps(v['case']))
                print(err or 'passes: %r' % (out,))
                bad |= bool(err)
            return 1 if bad else 0
        results = []
        mp = multiprocessing.get_context('fork')

        def run(tasks):
            out = []
            if tasks:
                with mp.Pool(min(a.jobs, len(tasks)), maxtasksperchild=1) as pool:
                    for r in pool.imap_unordered(worker, [(prop, tier, t, scratch) for t in tasks], chunksize=1):
                        out.append(r)
                        if FAST and (r['viol'] or r['err']):
                            break
            results.extend(out)
            return out

        # level 0 of every state space together with the enumerations, then level by level until nothing is new
        tasks, seen, last = [], {}, {}
        for sc in scs:
            if sc.kind == 'enum':
                tasks += [(sc.name, i, a.jobs) for i in range(a.jobs)]
            else:
                tasks += [(sc.name, [(c, None)]) for c in sc.init()]
        byname = {sc.name: sc for sc in scs}
        level = 0
        while tasks:
            out = run(tasks)
            frontier = {}
            for r in sorted(out, key=lambda r: repr(r['task'])):
                for config, hist, key in r['succ']:
                    name = r['task'][0]
                    k = (json.dumps(config), key)
                    if k not in seen.setdefault(name, set()):
                        seen[name].add(k)
                        last[name] = [config, hist]
                        if len(hist) < byname[name].depth:
                            frontier.setdefault(name, []).append((config, hist))
            if any(r['viol'] or r['err'] for r in out):
                break  # shortest counterexamples are found
            tasks = []
            for name, nodes in frontier.items():
                n = max(1, min(200, (len(nodes) + 4 * a.jobs - 1) // (4 * a.jobs)))
                tasks += [(name, nodes[i:i + n]) for i in range(0, len(nodes), n)]
            level += 1
        errs = [r['err'] for r in results if r['err']]
        viol = [v for r in results for v in r['viol']]
        known = load_known(prop)
        new, knownhit = [], []
        for v in viol:
            k = [t for (s, c, t) in known if s == v['scenario'] and c == v['case']]
            (knownhit if k else new).append((v, k[0] if k else None))
        for v, text in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        outcomes = set()
        samples = []
        per = {}
        for r in results:
            outcomes |= r['outcomes']
            samples += r['samples'][:2]
            d = per.setdefault(r['task'][0], dict(executions=0, transitions=0, distinct=0, cpu_s=0.0))
            d['executions'] += r['evaluations']
            d['transitions'] += r['transitions']
            d['distinct'] += len(r['outcomes'])
            d['cpu_s'] = round(d['cpu_s'] + r['wall'], 2)
        for name, keys in seen.items():
            per[name]['distinct'] = len(keys)
            outcomes |= set((name,) + k for k in keys)
            samples.append(dict(scenario=name, case=last[name]))
        first = {}
        for s in samples:
            first.setdefault(s['scenario'], s)
        wall = time.time() - t0
        ev = sum(r['evaluations'] for r in results)
        tr = sum(r['transitions'] for r in results)
        cov = dict(samples=list(first.values())[:12], per_scenario=per,
                   exhaustive=not viol and not errs and not a.scenario, rule=mod.RULE)
        if mod.LEVEL == 'model_checking':
            cov.update(states=len(outcomes), transitions=tr, traces_validated_against_impl=ev)
        else:
            cov.update(evaluations=ev, distinct_nontrivial=len(outcomes), transitions=tr)
        evd = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
                   level=mod.LEVEL, coverage=cov, assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2),
                   violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1, sort_keys=True, default=repr)
            f.write('\n')
        print('%s %s: executions=%d transitions=%d distinct=%d violations=%d known=%d wall=%.1fs' % (
            prop, tier, ev, tr, len(outcomes), len(new), len(knownhit), wall))
        for n, d in sorted(per.items()):
            print('   %-28s %s' % (n, d))
        if errs and not new:
            # a worker that could not finish: report the reason loudly
            sys.stderr.write('\n'.join(errs) + '\n')
            new = [(dict(scenario='worker', case=None, error=errs[0]), None)]
        if new:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, prop + '.json')
            vs = sorted([v for v, _ in new], key=lambda v: (len(json.dumps(v['case'])), json.dumps(v['case'])))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, how='bash /verif/run.sh %s --replay %s' % (prop, path),
                               violations=vs), f, indent=1)
            for v in vs[:3]:
                print('--- %s case=%s\n%s' % (v['scenario'], json.dumps(v['case'])[:1500], v['error'][:3000]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
    except Exception:
        # the code under test cannot even be loaded / enumerated
        traceback.print_exc()
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, violations=[dict(scenario='load', case=None,
                                                           error=traceback.format_exc())]), f)
        evd = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=time.time() - t0,
                   coverage=dict(states=0, transitions=0, traces_validated_against_impl=0,
                                 samples=[], exhaustive=False), violations=1)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evd, f)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
