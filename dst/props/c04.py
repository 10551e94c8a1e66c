"""C04: simulations running side by side in one process do not influence each other, nor does the surrounding process."""
import builtins
import copy
import datetime
import importlib
import json
import os
import pickle
import random
import subprocess
import sys
import threading
import time

import numpy as np

from .. import house as H
from .. import pipe
from .. import rt
from .. import sched
from .. import simfs
from .. import stages as S

LEVEL = 'exploration'
RUNS = (200, 5000)
LIMIT = 240
WALL = (420, 3000)
REAL = ['make_weather, make_house, make_house_for_test and core.calc, unmodified, in real threads of one process']
STUB = ['thread scheduling (one thread at a time; switches before lines or bytecodes of the product and at file operations)', 'locks created by the product',
        'wall clock, random state, hash seed, working directory']
RULE = ('one run = two to four stages of different houses under one schedule of switches, each compared with running alone in a fresh process; or one stage '
        'in two surroundings (clock, random state, hash seed, directory) that must not matter; distinct by history hash')
STATES = 'distinct (function preempted, stage resumed) pairs'
ASSUME = ['stages running side by side have output directories of their own', 'a switch inside a numpy or pandas call is only taken at its file operations']


def gen(rng, idx, tier):
    if idx % 6 == 5:
        return {'q': 'env', 'cfg': S.gen(rng, ['core', 'house', 'core', 'weather', 'json', 'core'][idx // 6 % 6]), 'seed': rng.randrange(1 << 30),
                'spawn': idx // 6 % 2 == 0, 'relative': rng.random() < 0.5}
    kinds = rng.choice([['core', 'core'], ['core', 'core', 'core'], ['core', 'core', 'weather'], ['house', 'house'], ['house', 'core'], ['json', 'json', 'core'],
                        ['weather', 'weather'], ['house', 'core', 'weather', 'json'], ['core', 'core'], ['house', 'house', 'weather']])
    mode = rng.choice(['dense', 'lockstep', 'wide', 'chase', 'chase', 'chase'])
    if mode == 'chase':                       # needs two of a kind
        kinds = rng.choice([['core', 'core'], ['core', 'core'], ['core', 'core', 'core'], ['house', 'house'], ['house', 'house'], ['json', 'house'], ['weather', 'weather'], kinds])
    tasks = [S.gen(rng, k) for k in kinds]
    if rng.random() < 0.3:                    # the same house again, with another period
        t = copy.deepcopy(tasks[0])
        if t['stage'] == 'core':
            t['run']['n_d_run_up'] = 1 - t['run']['n_d_run_up']
            tasks[-1] = t
    elif rng.random() < 0.4:                  # houses of one size
        core = [k for k, t in enumerate(tasks) if t['stage'] == 'core']
        if len(core) > 1:
            n = len(tasks[core[0]]['house']['spaces'])
            for k in core[1:]:
                while len(tasks[k]['house']['spaces']) != n:
                    tasks[k] = S.gen(rng, 'core')
    broken = rng.choice([None, None, None, rng.randrange(len(tasks))])
    if mode == 'chase':
        return {'q': 'threads', 'relative': rng.random() < 0.5, 'tasks': tasks, 'broken': broken, 'bseed': rng.randrange(1 << 30), 'mode': mode, 'opcodes': rng.random() < 0.25,
                'switches': [], 'chase': {'seed': rng.randrange(1 << 30), 'rate': rng.choice([0.03, 0.1, 0.3, 1.0]), 'reach': rng.choice([300, 1000, 3000, 20000]), 'window': [0, 1 << 40]}}
    return {'q': 'threads', 'relative': rng.random() < 0.5, 'tasks': tasks, 'broken': broken, 'bseed': rng.randrange(1 << 30), 'mode': mode, 'opcodes': rng.random() < 0.25,
            'switches': sched.draw(rng, {'dense': 600, 'lockstep': 1200, 'wide': 400}[mode], mode)}


def shrink(scn):
    if scn['q'] == 'env':
        for c in S.shrink(scn['cfg']):
            yield dict(scn, cfg=c)
        return
    if len(scn['tasks']) > 2:
        for k in range(len(scn['tasks'])):
            b = scn['broken']
            yield dict(scn, tasks=scn['tasks'][:k] + scn['tasks'][k + 1:], broken=None if b is None or b == k else b - (b > k))
    if scn['broken'] is not None:
        yield dict(scn, broken=None)
    if scn['relative']:
        yield dict(scn, relative=False)
    if scn.get('chase'):
        lo, hi = scn['chase']['window']
        hi = min(hi, 1 << 20)
        w = hi - lo
        if w > 1:
            for a, b in ((lo, lo + w // 2), (lo + w // 2, hi), (lo + w // 4, hi), (lo, hi - w // 4)):
                if (a, b) != (lo, hi):
                    yield dict(scn, chase=dict(scn['chase'], window=[a, b]))
    sw = scn['switches']
    n = len(sw)
    for part in (2, 4, 8, 16):
        if n >= part:
            for k in range(part):
                lo, hi = n * k // part, n * (k + 1) // part
                gap = sum(x[0] for x in sw[lo:hi])
                rest = [list(x) for x in sw[:lo]] + ([[sw[hi][0] + gap, sw[hi][1]]] + [list(x) for x in sw[hi + 1:]] if hi < n else [])
                yield dict(scn, switches=rest)
    if n <= 24:
        for k in range(n):
            rest = [list(x) for x in sw[:k]] + ([[sw[k + 1][0] + sw[k][0], sw[k + 1][1]]] + [list(x) for x in sw[k + 2:]] if k + 1 < n else [])
            yield dict(scn, switches=rest)


def reimport():
    """the product's modules once more, so that what they take from the standard library is what the run provides"""
    for m in [m for m in sys.modules if m == rt.TARGET or m.startswith(rt.TARGET + '.')]:
        del sys.modules[m]
    importlib.invalidate_caches()
    rt.import_target()


def run(scn, ctx):
    if scn['q'] == 'env':
        return run_env(scn, ctx)
    tasks = scn['tasks']
    dirs = [(ctx.scratch('in%d' % k), ctx.scratch('alone%d' % k), ctx.scratch('out%d' % k)) for k in range(len(tasks))]
    ref, totals = [], []
    for k, (t, (i, a, o)) in enumerate(zip(tasks, dirs)):
        simfs.process(ctx, lambda: S.prepare(t, i))
        if k == scn['broken']:
            spoil(t, i, scn['bseed'])

        def alone():
            return sched.counted(lambda: simfs.attempt(lambda: S.invoke(t, i, a)))
        r, n = simfs.process(ctx, alone)
        ref.append(r)
        totals.append(n)
        ctx.check(ref[-1].how == 'ok' or k == scn['broken'], 'refused', '%s refuses a legal input: %s' % (t['stage'], ref[-1].error))
        ctx.ticks += S.ticks(t)
    want = [simfs.content(a) for _, a, _ in dirs]
    inputs = [simfs.content(i) for i, _, _ in dirs]

    def together():
        s = sched.Scheduler(scn['switches'], scn['opcodes'], chase=scn.get('chase'), totals=totals)
        threading.Lock, threading.RLock = s.locks()
        try:
            reimport()
        finally:
            threading.Lock, threading.RLock = sched.real_lock, sched.real_rlock
        disk = simfs.Disk([x for d in dirs for x in d])
        op = disk.op

        def hooked(kind, path, size=0):
            s.point((kind, os.path.basename(path)))
            return op(kind, path, size)
        disk.op = hooked
        out = sys.stdout
        cwd = os.getcwd()
        give = (lambda x: os.path.relpath(x, cwd)) if scn['relative'] else (lambda x: x)
        calls = [lambda t=t, i=give(d[0]), o=give(d[2]): S.invoke(t, i, o) for t, d in zip(tasks, dirs)]
        real = {n: getattr(os, n) for n in ('chdir', 'fchdir', 'umask')}
        for n, f in real.items():              # what belongs to the whole process: the others run while it is changed
            setattr(os, n, lambda *a, f=f, n=n: (f(*a), s.force((n, '')))[0])
        with disk:
            res = s.run(calls)
        for n, f in real.items():
            setattr(os, n, f)
        sys.stdout = out
        return [(ok, v if ok else '%s: %s' % (type(v).__name__, v)) for ok, v in res], s.at, s.points, rt.guard_hits(), os.getcwd() == cwd
    try:
        res, at, points, hits, same = simfs.process(ctx, together)
    except RuntimeError as e:
        if 'Stuck' in str(e):
            ctx.check(False, 'stuck', 'stages side by side do not finish: %s' % str(e).strip().splitlines()[-1])
        raise
    ctx.faults(['preemption'] * len(at))
    ctx.probe('switch_points', points)
    ctx.probe('switches_taken', len(at))
    for a, where, b in at:
        ctx.state(where[0] if isinstance(where, tuple) else where, tasks[b]['stage'])
    ctx.log(at, points)
    ctx.check(not hits, 'stray-write', 'a file outside the given directories is touched: %s' % hits[:2])
    ctx.check(same, 'cwd', 'the working directory was changed')
    for k, (t, (ok, v)) in enumerate(zip(tasks, res)):
        ctx.log(ok, v)
        if k == scn['broken'] and ref[k].how == 'error':
            ctx.faults(['broken_neighbour'])
            ctx.check(not ok, 'influenced', '%s with damaged input returns when run side by side, alone it raises %s' % (t['stage'], ref[k].error))
            continue
        ctx.check(ok, 'influenced', '%s (thread %d of %d) fails only when run side by side: %s' % (t['stage'], k, len(tasks), v))
        ctx.check(v == ref[k].value, 'influenced', '%s (thread %d of %d: %s) returns other numbers than when run alone' % (
            t['stage'], k, len(tasks), [x['stage'] for x in tasks]))
        have = simfs.content(dirs[k][2])
        for f in sorted(set(have) | set(want[k])):
            d = simfs.differs(want[k].get(f), have.get(f))
            ctx.check(d is None, 'influenced', '%s (thread %d of %d) writes %s differently than when run alone: %s' % (t['stage'], k, len(tasks), f, d))
    for k, (i, _, _) in enumerate(dirs):
        ctx.check(simfs.content(i) == inputs[k], 'input-changed', 'the input directory of a stage changed')


def spoil(t, i, seed):
    """make the neighbour fail half way"""
    if t['stage'] == 'core':
        f = random.Random(seed).choice(sorted(os.listdir(i)))
        os.unlink(os.path.join(i, f))
    elif t['stage'] in ('house', 'json'):
        t['spec']['boundaries'][-1]['boundary_type'] = 'nonsense'
    else:
        t['region'] = 99


# ------------------------------------------------------------------------------ surroundings
def surround(ctx, rng, k):
    """another clock, another random state"""
    random.seed(rng.randrange(1 << 30))
    np.random.seed(rng.randrange(1 << 30))
    base = rng.choice([0.0, 1.0e9, 1.7e9, 4.0e9, 951782400.0])
    st = {'t': base}

    def tick():
        st['t'] += rng.choice([1e-6, 0.01, 1.0, 3600.0, 86400.0 * 30, -7200.0])
        return max(0.0, st['t'])
    real = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'strftime', 'ctime')}
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, tick)
        setattr(time, n + '_ns', lambda: int(tick() * 1e9))
    time.localtime = lambda s=None: real['localtime'](tick() if s is None else s)
    time.gmtime = lambda s=None: real['gmtime'](tick() if s is None else s)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: real['ctime'](tick() if s is None else s)
    dt, date = datetime.datetime, datetime.date

    class D(dt):
        @classmethod
        def now(cls, tz=None):
            return dt.fromtimestamp(tick(), tz)

        @classmethod
        def today(cls):
            return dt.fromtimestamp(tick())

        @classmethod
        def utcnow(cls):
            return dt.utcfromtimestamp(tick())

    class T(date):
        @classmethod
        def today(cls):
            return dt.fromtimestamp(tick()).date()
    datetime.datetime, datetime.date = D, T
    reimport()
    datetime.datetime, datetime.date = dt, date


DECOYS = ('schedules.json', 'weather.csv', 'mid_data_house.json', 'result_digest.csv') + tuple(sorted(pipe.SERIES.values()))


def run_env(scn, ctx):
    cfg = scn['cfg']
    i, a = ctx.scratch('in'), ctx.scratch('alone')

    def alone():
        S.prepare(cfg, i)
        return simfs.attempt(lambda: S.invoke(cfg, i, a))
    ref = simfs.process(ctx, alone)
    ctx.check(ref.how == 'ok', 'refused', '%s refuses a legal input: %s' % (cfg['stage'], ref.error))
    want = simfs.content(a)
    ctx.ticks += S.ticks(cfg)
    ctx.log(ref.value)
    rng = random.Random('env:%d' % scn['seed'])
    cwd = ctx.scratch('cwd')
    for f in DECOYS:
        with open(os.path.join(cwd, f), 'w') as g:
            g.write('not for you\n')
    here = simfs.content(cwd)
    o = ctx.scratch('out')
    rel = scn['relative']
    ri, ro = (os.path.relpath(i, cwd), os.path.relpath(o, cwd)) if rel else (i, o)

    def elsewhere():
        os.chdir(cwd)
        surround(ctx, rng, 0)
        disk = simfs.Disk([ctx.root])
        seen, op = set(), disk.op

        def hooked(kind, path, size=0):
            seen.add(path)
            return op(kind, path, size)
        disk.op = hooked
        out = simfs.attempt(lambda: S.invoke(cfg, ri, ro), disk)
        return out, sorted(seen), rt.guard_hits(), os.getcwd()
    got, seen, hits, now = simfs.process(ctx, elsewhere)
    ctx.faults(['clock_jump', 'random_state', 'working_directory'])
    judge(ctx, cfg, got, want, ref, o, 'another clock, random state and working directory')
    ok = [os.path.realpath(x) + os.sep for x in (i, o, os.environ['TMPDIR'])]
    stray = [p for p in seen if not any(p.startswith(x) or x.startswith(p.rstrip(os.sep) + os.sep) for x in ok)]      # the way to them is theirs too
    ctx.check(not stray and not hits, 'stray-file', '%s touches files outside its directories: %s' % (cfg['stage'], [os.path.relpath(p, ctx.root) for p in stray] or hits))
    ctx.check(os.path.realpath(now) == os.path.realpath(cwd), 'cwd', 'the working directory was changed')
    ctx.check(simfs.content(cwd) == here, 'stray-file', 'files of the working directory changed')
    if scn['spawn']:
        o2 = ctx.scratch('out2')
        job = os.path.join(ctx.root, 'job.json')
        with open(job, 'w') as f:
            json.dump({'cfg': cfg, 'in': i, 'out': o2}, f)
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1 << 31)), TZ=rng.choice(['Asia/Tokyo', 'America/New_York', 'UTC']), HLC_ROOT=ctx.root)
        rt._guard['on'] = False
        try:
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.path[:0] = %r; from dst.props import c04; c04.spawned(%r)'
                                % ([rt.VERIF, rt.REPO], job)], env=env, cwd=cwd, capture_output=True, text=True)
        finally:
            rt._guard['on'] = True
        if p.returncode != 0:
            raise RuntimeError('spawned process: ' + p.stderr[-1500:])
        with open(job + '.out', 'rb') as f:
            got = pickle.load(f)
        ctx.faults(['hash_seed', 'time_zone'])
        judge(ctx, cfg, got, want, ref, o2, 'another hash seed and time zone in a fresh interpreter')
    ctx.state('env', cfg['stage'], scn['spawn'], rel)


def judge(ctx, cfg, got, want, ref, out, what):
    ctx.check(got.how == 'ok', 'surroundings', '%s fails with %s: %s' % (cfg['stage'], what, got.error))
    ctx.check(got.value == ref.value, 'surroundings', '%s returns other numbers with %s' % (cfg['stage'], what))
    have = simfs.content(out)
    for f in sorted(set(have) | set(want)):
        d = simfs.differs(want.get(f), have.get(f))
        ctx.check(d is None, 'surroundings', '%s writes %s differently with %s: %s' % (cfg['stage'], f, what, d))


def spawned(job):
    """in a fresh interpreter"""
    with open(job) as f:
        j = json.load(f)
    rt._guard.update(on=True, roots=[os.path.realpath(os.environ['HLC_ROOT'])], hits=[])
    sys.addaudithook(rt._audit)
    rt.import_target()
    o = simfs.attempt(lambda: S.invoke(j['cfg'], j['in'], j['out']))
    with open(job + '.out', 'wb') as f:
        pickle.dump(o, f)
