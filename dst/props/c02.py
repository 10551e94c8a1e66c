"""C02: re-running after a crash converges to the clean result, whatever was left behind."""
import os
import random
import sys

from .. import pipe
from .. import simfs
from .. import stages as S

LEVEL = 'exploration'
RUNS = (64, 2400)
LIMIT = 240
WALL = (400, 3000)
REAL = ['make_weather, make_house, make_house_for_test and core.calc with result files, unmodified, in processes forked before their first call']
STUB = ['the disk: crash points at any operation, loss of writes not synced (kept, torn, zeroed, emptied, undone), I/O errors', 'process death']
RULE = ('one run = one history of a directory: leftovers, crashes and I/O errors at drawn operations of one stage or of the pipeline, restarts in the same or a '
        'new process, then a re-run on a healthy disk; distinct by history hash')
STATES = 'distinct (stage, fault, operation, file, surviving state, restart kind) combinations'
ASSUME = ['stages finished before the failing one had reached the disk', 'files nobody promised (temporary ones) may stay behind',
          'reference: the same stages once, in a fresh directory and a fresh process']
CHAIN = ('weather', 'house', 'core')


def gen(rng, idx, tier):
    kind = ['pipeline', 'core', 'pipeline', 'core', 'house', 'weather', 'pipeline', 'json'][idx % 8]
    if kind == 'pipeline':
        d = pipe.gen_spec(rng, rooms=rng.choice([1, 2]))
        run = {'n_d_main': 1, 'n_d_run_up': 1, 'n_d_run_up_build': 0}
        chain = [{'stage': 'weather', 'region': d['common']['region'], 'interval': '15m'}, {'stage': 'house', 'spec': d}, {'stage': 'core', 'run': run}]
        od = pipe.gen_spec(rng, rooms=rng.choice([1, 2]))
        other = [{'stage': 'weather', 'region': od['common']['region'], 'interval': '15m'}, {'stage': 'house', 'spec': od}, {'stage': 'core', 'run': run}]
    else:
        chain, other = [S.gen(rng, kind)], [S.gen(rng, kind)]
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            s.append({'do': rng.choice(['error', 'error', 'other', 'there']), 'at': rng.choice([None, rng.randrange(len(chain))]), 'seed': rng.randrange(1 << 30)})
        s.append({'do': 'crash', 'at': rng.choice([None, rng.randrange(len(chain))]), 'seed': rng.randrange(1 << 30), 'power': rng.random() < 0.6})
        sessions.append(s)
    last = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        last.append({'do': rng.choice(['error', 'other', 'there']), 'at': None, 'seed': rng.randrange(1 << 30)})
    sessions.append(last)
    return {'chain': chain, 'other': other, 'left': rng.choice(['nothing', 'other', 'half', 'older']), 'sessions': sessions, 'seed': rng.randrange(1 << 30)}


def shrink(scn):
    ss = scn['sessions']
    for k in range(len(ss)):
        if len(ss) > 1:
            yield dict(scn, sessions=ss[:k] + ss[k + 1:])
        for m in range(len(ss[k])):
            yield dict(scn, sessions=ss[:k] + [ss[k][:m] + ss[k][m + 1:]] + ss[k + 1:])
    if scn['left'] != 'nothing':
        yield dict(scn, left='nothing')
    if len(scn['chain']) == 1:
        for c in S.shrink(scn['chain'][0]):
            yield dict(scn, chain=[c])


def chain_run(chain, inp, d, disks=None):
    out = []
    for k, cfg in enumerate(chain):
        o = simfs.attempt(lambda: S.invoke(cfg, inp if len(chain) == 1 else d, d), disks[k] if disks else None)
        out.append(o)
        if o.how != 'ok':
            break
    return out


def run(scn, ctx):
    chain, other = scn['chain'], scn['other']
    single = len(chain) == 1
    inp, oinp, a, b = ctx.scratch('in'), ctx.scratch('oin'), ctx.scratch('clean'), ctx.scratch('dir')
    oout = ctx.scratch('oout')
    if single:
        simfs.process(ctx, lambda: (S.prepare(chain[0], inp), S.prepare(other[0], oinp)))

    def reference():
        disks = [simfs.Disk(S.roots(a, inp)) for _ in chain]
        o = chain_run(chain, inp, a, disks)
        for x, d in zip(o, disks):
            x.aux = list(S.classes(d.trace).items())
        return o
    ref = simfs.process(ctx, reference)
    ctx.check(all(o.how == 'ok' for o in ref) and len(ref) == len(chain), 'refused', 'a legal input is refused on a healthy disk: %s' % ref[-1].error)
    want = simfs.content(a)
    names = [f for cfg in chain for f in S.promised(cfg)]
    ctx.log(sorted((k, len(v)) for k, v in want.items()), [o.value for o in ref])
    ctx.ticks += sum(S.ticks(c) for c in chain)
    # ---- leftovers
    rng = random.Random('c02:%d' % scn['seed'])
    if scn['left'] == 'other':
        o = simfs.process(ctx, lambda: chain_run(other, oinp, b))
        ctx.check(o[-1].how == 'ok', 'refused', 'a legal input is refused: %s' % o[-1].error)
        ctx.faults(['stale_other_house'])
    elif scn['left'] in ('half', 'older'):
        for f in names:
            with open(os.path.join(b, f), 'wb') as g:
                g.write(want[f][:rng.randint(0, len(want[f]))] if scn['left'] == 'half' else want[f].replace(b'1', b'2'))
        ctx.faults(['stale_' + scn['left']])
    # ---- the history: `pos` is the first stage not yet finished; a re-run starts from it
    pos = 0
    got = [None] * len(chain)
    for k, session in enumerate(scn['sessions']):
        final = k == len(scn['sessions']) - 1

        def life(pos=pos, session=session, final=final):
            sys.unraisablehook = lambda *a: None
            hist, p, vals = [], pos, {}
            for step in session + ([{'do': 'clean'}] if final else []):
                if step['do'] == 'other':
                    o = chain_run(other, oinp, oout)[-1]
                    hist.append(('other', '', o.how, o.error, ''))
                    continue
                if step['do'] == 'there':                   # another house in the same directory; then this one again from the start
                    o = chain_run(other, oinp, b)[-1]
                    hist.append(('other', '', o.how, o.error, ''))
                    p = 0
                    continue
                r = random.Random('step:%d' % step.get('seed', 0))
                at = None
                if step['do'] != 'clean':
                    at = p if step['at'] is None else max(p, step['at'])
                    if at >= len(chain):
                        at = len(chain) - 1
                # a step works through the unfinished stages; the fault waits in stage `at`
                for q in range(min(p, len(chain) - 1), len(chain)):
                    plan, mark = {}, None
                    if q == at:
                        cl = ref[q].aux
                        if step['do'] == 'error' or r.random() < 0.75:
                            cl = [c for c in cl if c[0][0] in simfs.WRITES] if r.random() < 0.7 else cl
                        mark, n = r.choice(cl)
                        plan = {mark + (S.place(r, n),): ('crash',) if step['do'] == 'crash' else ('error', r.choice(simfs.CAN[mark[0]]), r.random() < 0.5)}
                    disk = simfs.Disk(S.roots(b, inp), plan, 0.0, step.get('seed', 0))
                    o = simfs.attempt(lambda: S.invoke(chain[q], inp if single else b, b), disk)
                    if o.how == 'crash':
                        left = disk.after_crash(r, step['power'])
                        hist.append(('crash', mark, 'power' if step['power'] else 'kill', sorted(left.items()), chain[q]['stage']))
                        return hist, q, vals
                    if o.how == 'error':
                        hist.append(('error' if disk.fired else 'refused', mark, disk.fired, o.error, chain[q]['stage']))
                        p = q
                        break
                    vals[q] = o.value
                    p = q + 1
                else:
                    hist.append(('done', '', '', '', ''))
            return hist, p, vals
        hist, pos, vals = simfs.process(ctx, life)
        for what, mark, x, y, stage in hist:
            ctx.log(what, mark, x, y, stage)
            if what == 'crash':
                ctx.faults(['crash_' + x] + ['write_' + h for _, h in y])
                ctx.state(stage, 'crash', *mark, x, *sorted(set(h for _, h in y)))
            elif what == 'error':
                ctx.faults(['%s@%s' % (x[0][0], x[0][1])])
                ctx.state(stage, 'error', *mark, x[0][0])
            elif what == 'refused':
                ctx.check(False, 'refused-rerun', '%s refuses to run again on a healthy disk after %s: %s' % (stage, describe(scn, hist), y))
            elif what == 'other' and x != 'ok':
                ctx.check(False, 'refused', 'another house is refused after %s: %s' % (describe(scn, hist), y))
        for q, v in vals.items():
            got[q] = v
        ctx.faults(['restart'] if not final else [])
    ctx.check(pos == len(chain), 'not-finished', 'the last re-run did not finish')
    have = simfs.content(b)
    for f in names:
        d = simfs.differs(want[f], have.get(f))
        ctx.check(d is None, 'not-converged', '%s differs from a run in a fresh directory after %s, leftovers: %s: %s' % (f, describe(scn, []), scn['left'], d))
    for q, o in enumerate(ref):
        ctx.check(got[q] == o.value, 'other-numbers', '%s returns other numbers after %s, leftovers: %s' % (chain[q]['stage'], describe(scn, []), scn['left']))
    ctx.state('left', scn['left'], *[s['do'] for ss in scn['sessions'] for s in ss])


def describe(scn, hist):
    return ' / '.join(', '.join(s['do'] for s in ss) or 'nothing' for ss in scn['sessions'])
