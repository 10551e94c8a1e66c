"""C01: a stage that returns normally left every output file complete."""
import os
import random
import sys

from .. import rt
from .. import simfs
from .. import stages as S

LEVEL = 'exploration'
RUNS = (120, 3000)
LIMIT = 200
WALL = (400, 3000)
REAL = ['make_weather, make_house, make_house_for_test and core.calc with result files, unmodified, with pandas, numpy, csv and json on top of '
        'the simulated disk']
STUB = ['the answers of open, read, write, close, fsync, rename, unlink and mkdir (short transfers, ENOSPC, EDQUOT, EIO, EMFILE, EACCES) '
        'for all files of the run and the packaged data']
RULE = ('one run = one stage and one input; a clean attempt, one with short reads and writes only, then attempts with an error at one operation each; the '
        'operations are grouped by (operation, file), every group is visited over the runs, the operation within it is drawn; distinct by history hash')
STATES = 'distinct (stage, operation, file, error, how the stage ended) combinations'
ASSUME = ['a stage may raise anything; only a normal return is judged', 'reference bytes and numbers come from the same code on a healthy disk',
          'EINTR is retried inside CPython (PEP 475) and so appears as a short transfer']
PER = 12
TURN = 4
OPEN = 9                 # from here on: the moment an output file is opened


def gen(rng, idx, tier):
    kind = ['core', 'house', 'weather', 'core', 'house', 'json'][idx % 6]
    return {'cfg': S.gen(rng, kind), 'seed': rng.randrange(1 << 30), 'shorts': rng.choice([0.0, 0.1, 0.5]),
            'only': None, 'turn': idx // 6, 'stale': rng.random() < 0.5}


def shrink(scn):
    if scn['only'] is None:
        for k in range(-2, PER):
            yield dict(scn, only=k)
    if scn['shorts']:
        yield dict(scn, shorts=0.0)
    if scn['stale']:
        yield dict(scn, stale=False)
    for c in S.shrink(scn['cfg']):
        yield dict(scn, cfg=c)


def go(ctx, cfg, inp, out, plan, shorts, seed):
    """one attempt in a process of its own"""
    def f():
        sys.unraisablehook = lambda *a: None
        disk = simfs.Disk(S.roots(inp, out), plan, shorts, seed)
        o = simfs.attempt(lambda: S.invoke(cfg, inp, out), disk)
        o.aux = (disk.trace, disk.fired, disk.n_short, rt.guard_hits())
        return o
    return simfs.process(ctx, f)


def judge(ctx, cfg, o, out, ref, refv, what):
    if o.how != 'ok':
        return
    got = simfs.content(out)
    for f in S.promised(cfg):
        d = simfs.differs(ref.get(f), got.get(f))
        ctx.check(d is None, 'incomplete-output', '%s returned normally although %s, but %s: %s' % (cfg['stage'], what, f, d))
    ctx.check(o.value == refv, 'wrong-return', '%s returned normally although %s, but with other numbers' % (cfg['stage'], what))


def run(scn, ctx):
    cfg = scn['cfg']
    inp, a = ctx.scratch('in'), ctx.scratch('clean')
    simfs.process(ctx, lambda: S.prepare(cfg, inp))
    before = simfs.content(inp)
    o = go(ctx, cfg, inp, a, {}, 0.0, 0)
    ctx.check(o.how == 'ok', 'refused', '%s refuses a legal input on a healthy disk: %s' % (cfg['stage'], o.error))
    trace, _, _, hits = o.aux
    ctx.check(not hits, 'stray-write', 'a file outside the given directories is written: %s' % hits[:2])
    ref, refv = simfs.content(a), o.value
    for f in S.promised(cfg):
        ctx.check(bool(ref.get(f)), 'missing-output', '%s returned normally without writing %s' % (cfg['stage'], f))
    ctx.ticks += S.ticks(cfg)
    ctx.log(o.how, refv, sorted((k, len(v)) for k, v in ref.items()))
    rng = random.Random('c01:%d' % scn['seed'])
    cl = list(S.classes(trace).items())
    ctx.probe('operation_groups', len(cl))
    todo = []
    outs = [c for c in cl if c[0][0] in simfs.WRITES and c[0][0] != 'open_w'] or cl
    first = [(c, e) for c in cl if c[0][0] == 'open_w' for e in simfs.CAN['open_w']] or [(c, 'EIO') for c in outs]
    for k in range(PER):
        if k >= OPEN:
            (key, ns), e = first[(scn['turn'] * (PER - OPEN) + k) % len(first)]
            todo.append((key, rng.choice([0, ns - 1]), e, False, 0))
            continue
        if k < TURN:                                       # every operation of the stage
            key, ns = cl[(scn['turn'] * TURN + k) % len(cl)]
            n = S.place(rng, ns)
        else:                                              # the last moments of every output file
            key, ns = outs[(scn['turn'] * (OPEN - TURN) + k) % len(outs)]
            n = rng.choice([ns - 1, ns - 1, rng.randrange(ns)])
        todo.append((key, n, rng.choice(simfs.CAN[key[0]]), rng.random() < 0.5, rng.randrange(1 << 30)))
    for k in [-2, -1] + list(range(PER)):
        if scn['only'] is not None and scn['only'] != k:
            continue
        out = ctx.scratch('out%d' % k)
        if k == -2:                                        # the directory the caller names does not exist (yet)
            out = os.path.join(out, 'later')
            o = go(ctx, cfg, inp, out, {}, 0.0, 0)
            ctx.faults(['no output directory'])
            ctx.log('nodir', o.how)
            judge(ctx, cfg, o, out, ref, refv, 'the output directory does not exist')
            continue
        if scn['stale']:
            for f in S.promised(cfg):
                with open(os.path.join(out, f), 'wb') as g:
                    g.write(ref[f][:len(ref[f]) // 2] + b'left behind\n')
        if k < 0:
            o = go(ctx, cfg, inp, out, {}, 0.6, scn['seed'])
            ctx.faults(['short_transfer'] * o.aux[2])
            ctx.check(o.how == 'ok', 'short-transfer', '%s fails when the kernel cuts reads and writes short: %s' % (cfg['stage'], o.error))
            judge(ctx, cfg, o, out, ref, refv, 'reads and writes were cut short')
            ctx.log('short', o.aux[2])
            continue
        (kind, name), n, err, sticky, seed = todo[k]
        o = go(ctx, cfg, inp, out, {(kind, name, n): ('error', err, sticky)}, scn['shorts'], seed)
        if not o.aux[1]:
            # short transfers left fewer operations of this kind
            ctx.probe('fault_not_reached')
            judge(ctx, cfg, o, out, ref, refv, 'nothing failed')
            continue
        ctx.faults(['%s@%s' % (e, kd) for e, kd in o.aux[1]])
        ctx.probe('stage_raised' if o.how == 'error' else 'stage_returned')
        ctx.state(cfg['stage'], kind, name, err, o.how)
        ctx.log(kind, name, n, err, o.how, o.error if o.how == 'error' else '')
        judge(ctx, cfg, o, out, ref, refv, '%s of %s failed with %s' % (o.aux[1][0][1], name, err))
    ctx.check(simfs.content(inp) == before, 'input-changed', '%s changed its input directory' % cfg['stage'])
