"""C06: the carried condition is the whole state; any tick can be replayed or resumed.

Simulation: the load calculation runs with every hand-over of a condition intercepted. At seeded ticks the simulator kills the
process and restarts it from a serialised copy of the condition (the restarted process skips to that tick), repeats a tick,
runs a tick of a 'ghost' state (scrambled, or almost the same as the real one) in between, or scribbles over conditions that are already used up."""
import copy
import os
import pickle
import sys

import numpy as np

from .. import house as H
from .. import phys as P
from ..rt import from_product

LEVEL = 'fault_enumeration'
RUNS = (130, 3000)
REAL, STUB = P.REAL, P.STUB + ['process death and restart: a forked process that knows only the files and the serialised condition']
RULE = ('one run = one generated house and history, executed undisturbed and again with 1-12 seeded crash/restart, repeat, ghost or '
        'scribble faults at hand-overs of the (ground) condition; non-trivial when at least one fault fired; distinct by history hash')
STATES = 'distinct (fault kind, phase of the calculation, tick of day) triples'
ASSUME = P.ASSUME + ['results are compared to 1e-9 relative (bit equality is counted as a probe)']
KINDS = ('crash', 'crash', 'repeat', 'ghost', 'scribble')


def gen(rng, idx, tier):
    D = rng.choice([1, 2])
    main = rng.randint(1, D)
    up = rng.randint(0, D)
    build = rng.randint(0, up)
    scn = P.gen(rng, idx, tier, D=D, calm=0.3, force={'ground': rng.random() < 0.6},
                run={'n_d_main': main, 'n_d_run_up': up, 'n_d_run_up_build': build})
    total = (main + up) * H.STEPS
    kinds = rng.sample(sorted(set(KINDS)), rng.randint(1, 4))
    ticks = sorted(rng.sample(range(total), min(total, rng.randint(1, 12))))
    if idx % 3 == 0 and up > build:                       # the hand-over from the ground to the building calculation
        ticks = sorted(set(ticks + [(up - build) * H.STEPS, (up - build) * H.STEPS - 1]))
    scn['plan'] = [{'at': t, 'do': rng.choice(kinds), 'seed': rng.randrange(10 ** 6)} for t in ticks]
    return scn


def shrink(scn):
    p = scn['plan']
    if len(p) > 1:
        yield dict(scn, plan=p[:len(p) // 2])
        yield dict(scn, plan=p[len(p) // 2:])
        for k in range(len(p)):
            yield dict(scn, plan=p[:k] + p[k + 1:])
    for s in H.shrink({k: v for k, v in scn.items() if k != 'plan'}):
        r = s['run']
        tot = (r['n_d_main'] + r['n_d_run_up']) * H.STEPS
        q = [e for e in p if e['at'] < tot]
        if q:
            yield dict(s, plan=q)


class Crash(BaseException):
    pass


class Ticker:
    """stands between the calculation and its per-step functions"""
    def __init__(self, plan, resume=None, watch=True):
        self.k = -1
        self.plan = {}
        for e in plan:
            self.plan.setdefault(e['at'], []).append(e)
        self.resume = resume                    # (k, pickled condition): skip everything before tick k
        self.fired = []
        self.seen = []                          # (condition, digest) already used up
        self.stale = None
        self.complaint = None
        self.watch = watch

    def install(self):
        from heat_load_calc.core import conditions, sequence, sequence_ground
        self.types = tuple(t for t in vars(conditions).values() if isinstance(t, type) and t.__module__ == conditions.__name__)
        self._wrap(sequence, 'building')
        self._wrap(sequence_ground, 'ground')

    def _wrap(self, mod, phase):
        orig = getattr(mod, 'run_tick', None)
        if orig is None:                        # no such hand-over any more: nothing to stand between
            return

        def tick(*a, **kw):
            return self.tick(orig, phase, a, kw)
        mod.run_tick = tick

    def _find(self, a, kw):
        for i, x in enumerate(a):
            if isinstance(x, self.types):
                return ('a', i, x)
        for k, x in kw.items():
            if isinstance(x, self.types):
                return ('k', k, x)
        return None

    @staticmethod
    def _with(a, kw, where, c):
        if where[0] == 'a':
            a = a[:where[1]] + (c,) + a[where[1] + 1:]
        else:
            kw = dict(kw)
            kw[where[1]] = c
        return a, kw

    def tick(self, orig, phase, a, kw):
        self.k += 1
        w = self._find(a, kw)
        if w is None:
            return orig(*a, **kw)
        c = w[2]
        if self.resume is not None:
            k, blob = self.resume
            if self.k < k:
                return c
            if self.k == k:
                c = pickle.loads(blob)
                a, kw = self._with(a, kw, w, c)
        todo = self.plan.get(self.k, [])
        before = digest(c)
        for e in todo:
            if e['do'] == 'crash':
                self.fired.append(('crash', phase, self.k % H.STEPS))
                raise Crash(self.k, pickle.dumps(c))
            if e['do'] == 'ghost':
                self.fired.append(('ghost', phase, self.k % H.STEPS))
                g = scramble(c, e['seed'])
                a2, kw2 = self._with(a, kw, w, g)
                try:
                    orig(*a2, **kw2)
                except Exception:
                    pass
            if e['do'] == 'repeat':
                self.fired.append(('repeat', phase, self.k % H.STEPS))
                a2, kw2 = self._with(a, kw, w, copy.deepcopy(c))
                r1 = orig(*a2, **kw2)
                r2 = orig(*a, **kw)
                d = differ(r1, r2)
                if d:
                    self.complaint = self.complaint or ('repeat', 'tick %d (%s): repeating it from the same condition gives another %s'
                                                        % (self.k, phase, d))
        out = orig(*a, **kw)
        if digest(c) != before:
            self.complaint = self.complaint or ('modified', 'tick %d (%s) modifies the condition it was given' % (self.k, phase))
        if self.watch:
            self.seen.append((self.k, phase, c, before))
            if len(self.seen) > 6:
                self.seen.pop(0)
            for k, ph, c0, d0 in self.seen:
                if d0 is not None and digest(c0) != d0:
                    self.complaint = self.complaint or ('modified', 'the condition handed on before tick %d (%s) was modified by tick '
                                                        '%d' % (k, ph, self.k))
        if any(e['do'] == 'scribble' for e in todo) and out is not c:
            self.fired.append(('scribble', phase, self.k % H.STEPS))
            self.seen = []
            keep = [x for x in fields(out).values() if isinstance(x, np.ndarray)]
            for x in fields(c).values():
                if isinstance(x, np.ndarray) and x.dtype != object and x.flags.writeable and not any(np.shares_memory(x, y) for y in keep):
                    x[...] = -777.0 if x.dtype.kind == 'f' else 0
        return out


def fields(c):
    """what a condition holds, however its class keeps it"""
    if hasattr(c, '__dict__'):
        return vars(c)
    if hasattr(c, '_asdict'):
        return c._asdict()
    return {k: getattr(c, k) for t in type(c).__mro__ for k in getattr(t, '__slots__', ()) if hasattr(c, k)}


def digest(c):
    return tuple((k, v.tobytes() if isinstance(v, np.ndarray) and v.dtype != object else repr(v)) for k, v in sorted(fields(c).items()))


def differ(a, b):
    for k, x in fields(a).items():
        y = fields(b).get(k)
        if isinstance(x, np.ndarray) and x.dtype != object:
            if not np.allclose(x, y, rtol=1e-9, atol=1e-9):
                return k
        elif repr(x) != repr(y):
            return k
    return None


def scramble(c, seed):
    r = np.random.RandomState(seed)
    g = copy.deepcopy(c)
    near = 10.0 ** r.uniform(-6.5, -2.5) if seed % 2 else None      # almost the same state, or quite another one
    for k, x in fields(g).items():
        if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
            if near:
                x[...] = x * (1.0 + near * r.uniform(-1, 1, x.shape)) + (near * r.uniform(-1, 1) if 'theta' in k else 0.0)
                continue
            x[...] = x * r.uniform(0.8, 1.2, x.shape) + (r.uniform(-3, 3) if 'theta' in k and 'dsh' not in k else 0.0)
    return g


def table(dd):
    cols = [c for c in dd.columns if not c.endswith('remarks')]
    return cols, np.array([[np.nan if x is None else float(x) for x in dd[c].values] for c in cols]), [list(dd[c].values) for c in dd.columns if c.endswith('remarks')]


def in_process(fn):
    """run fn in a forked process; its result comes back pickled (the 'other process' of a crash)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = ('ok', fn())
            except Crash as e:
                res = ('crash', e.args)
            except BaseException as e:
                import traceback
                res = ('err' if from_product(e) else 'harness', type(e).__name__, str(e),
                       ''.join(traceback.format_exception(e))[-2500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        blob = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(blob)
    if res[0] == 'harness':
        raise RuntimeError(res[3])
    return res


def run(scn, ctx):
    d = ctx.scratch()
    s = H.expand(scn)
    H.write(d, scn['house'], s)
    ctx.faults(e['kind'] for e in scn['events'])
    r = scn['run']
    ctx.ticks += 2 * (r['n_d_main'] + r['n_d_run_up']) * H.STEPS

    def calc(plan, resume=None):
        t = Ticker(plan, resume)
        t.install()
        try:
            ds, dd = H.core_calc(d, None, **r)
        except Crash as e:
            return ('crash', e.args, t.fired, t.complaint)
        return ('done', table(dd), t.fired, t.complaint)

    res = in_process(lambda: table(H.core_calc(d, None, **r)[1]))
    if res[0] == 'err':
        raise_product(res)
    cols, base, rem = res[1]
    ctx.log(base)
    up = r['n_d_run_up'] * H.STEPS
    resume = None
    plan = list(scn['plan'])
    fired = []
    for _ in range(len(plan) + 1):
        out = in_process(lambda: calc(plan, resume))
        if out[0] == 'err':
            raise_product(out)
        kind, val, f, complaint = out[1]
        fired += f
        if complaint:
            ctx.fail(*complaint)
            return
        if kind == 'done':
            cols2, got, rem2 = val
            start = max(0, (resume[0] if resume else 0) - up)
            break
        resume = val
        plan = [e for e in plan if e['at'] > val[0] or (e['at'] == val[0] and e['do'] != 'crash')]
    for f in fired:
        ctx.faults([f[0]])
        ctx.state(*f)
    ctx.nontrivial = bool(fired)
    ctx.probe('crash_in_ground_phase', sum(f[0] == 'crash' and f[1] == 'ground' for f in fired))
    ctx.check(cols == cols2 and base.shape == got.shape, 'resume-shape', 'the resumed run returns another table')
    a, b = base[:, start:], got[:, start:]
    ctx.probe('bit_identical', np.array_equal(a, b))
    bad = ~np.isclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
    if bad.any():
        k, n = np.argwhere(bad)[np.argmin(np.argwhere(bad)[:, 1])]
        ctx.fail('history', 'row %d, column %s: %.12g uninterrupted, %.12g after %s' % (
            n + start, cols[k], a[k, n], b[k, n], ['%s@%s-%d' % f for f in fired][:6]))
    for x, y in zip(rem, rem2):
        ctx.check(x[start:] == y[start:], 'history', 'remarks differ after a fault')


def raise_product(res):
    from ..rt import Violation
    raise Violation('exception:%s' % res[1], 'the calculation stops: %s: %s' % (res[1], res[2][:300]))
