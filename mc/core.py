"""Bounded exhaustive exploration of the real code: drivers, bookkeeping, evidence, replay.

A property module (mc/props/<id>.py) defines
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def scenarios(tier): -> list of Enum / Bfs objects
Every scenario enumerates a finite space completely (no sampling, no cap): either all cases of a
product/sequence space (Enum), or all reachable states of a transition system whose transition function
is the real code (Bfs).  A case is a JSON-able value, so that every violation is replayable on its own.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import itertools


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def digest(x):
    return hashlib.md5(repr(x).encode('utf-8', 'surrogateescape')).hexdigest()[:16]


class Ctx(object):
    """Per-worker context: counts, scratch directory."""

    def __init__(self, prop, tier, scratch):
        self.prop = prop
        self.tier = tier
        self.scratch = scratch
        self.transitions = 0
        self.evaluations = 0
        self.outcomes = set()
        self._n = 0

    def step(self, n=1):
        self.transitions += n

    def outcome(self, x):
        self.outcomes.add(digest(x))

    def newdir(self, tag='d'):
        self._n += 1
        d = os.path.join(self.scratch, '%s%s_%s' % (tag, os.getpid(), self._n))
        os.makedirs(d)
        return d


class Enum(object):
    """all cases of gen() are checked with check(ctx, case); check returns a hashable outcome (or None)"""
    kind = 'enum'

    def __init__(self, name, gen, check, timeout=60):
        self.name, self.gen, self.check, self.timeout = name, gen, check, timeout


class Bfs(object):
    """explicit-state search.  init(): list of configurations (JSON-able)
    build(ctx, config, history) -> state object (replays the real code from scratch), raising Violation when
    the property fails on the last step; events(state) -> list of JSON-able events; canon(state) -> hashable;
    depth -> maximal history length."""
    kind = 'bfs'

    def __init__(self, name, init, build, events, canon, depth, timeout=60):
        self.name, self.init, self.build, self.events = name, init, build, events
        self.canon, self.depth, self.timeout = canon, depth, timeout


class _Alarm(Exception):
    pass


def _on_alarm(*_):
    raise _Alarm()


def guarded(func, timeout):
    """run one case; anything the code under test raises in a legal case is a violation"""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return None, func()
    except Violation as e:
        return 'property violated: %s' % e, None
    except HarnessError:
        raise
    except _Alarm:
        return 'no answer within %s s' % timeout, None
    except SystemExit as e:
        return 'unexpected SystemExit: %r\n%s' % (e.code, traceback.format_exc()), None
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()), None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_enum(ctx, sc, shard, nshards, stop):
    viol, samples, n = [], [], 0
    for i, case in enumerate(sc.gen()):
        if i % nshards != shard:
            continue
        n += 1
        ctx.evaluations += 1
        err, out = guarded(lambda: sc.check(ctx, case), sc.timeout)
        if err:
            viol.append(dict(scenario=sc.name, case=case, error=err))
            if len(viol) >= stop:
                break
        else:
            if out is not None:
                ctx.outcome((sc.name, out))
            if n == 1 or (n & (n - 1)) == 0 and len(samples) < 6:
                samples.append(dict(scenario=sc.name, case=case, outcome=repr(out)[:200]))
    return viol, samples


def run_bfs_root(ctx, sc, config):
    """evaluate the initial state of one configuration; returns (violations, digest of the state)"""
    ctx.evaluations += 1
    err, st = guarded(lambda: sc.build(ctx, config, []), sc.timeout)
    if err:
        return [dict(scenario=sc.name, case=[config, []], error=err)], None
    return [], digest(sc.canon(st))


def run_bfs_expand(ctx, sc, config, hist, stop):
    """all successors of the state reached by hist; returns (violations, [(history, digest)])"""
    viol, succ = [], []
    err, st = guarded(lambda: sc.build(ctx, config, hist), sc.timeout)
    if err:
        raise HarnessError('replay of a passing prefix diverged: %s %s %s' % (config, hist, err))
    for ev in sc.events(st):
        nxt = hist + [ev]
        ctx.evaluations += 1
        err, st2 = guarded(lambda: sc.build(ctx, config, nxt), sc.timeout)
        if err:
            viol.append(dict(scenario=sc.name, case=[config, nxt], error=err))
            if len(viol) >= stop:
                break
        else:
            succ.append((nxt, digest(sc.canon(st2))))
    return viol, succ


def replay_case(ctx, sc, case):
    if sc.kind == 'enum':
        return guarded(lambda: sc.check(ctx, case), sc.timeout)
    config, hist = case
    return guarded(lambda: sc.build(ctx, config, hist), sc.timeout)


def product_cases(**axes):
    names = list(axes)
    for vals in itertools.product(*[axes[n] for n in names]):
        yield dict(zip(names, vals))


def sequences(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for seq in itertools.product(alphabet, repeat=n):
            yield list(seq)
