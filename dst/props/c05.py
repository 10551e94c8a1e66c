"""C05: every public call is repeatable: no history, no change to its arguments, no sharing with what it returns."""
import copy
import os
import random
import shutil
import sys

from .. import calls as C
from .. import house as H
from .. import rt
from .. import simfs
from .. import stages as S
from ..rt import from_product

LEVEL = 'exploration'
RUNS = (480, 14000)
LIMIT = 240
WALL = (420, 3000)
REAL = ['the public functions of specification conversion, weather, house initialisation, response factors and load calculation, unmodified']
STUB = ['disk (errors at chosen operations)', 'failing allocations and keyboard interrupts raised before a chosen line of the product',
        'the caller, who edits what it was given and what it passed']
RULE = 'one run = one history of 5 to 12 calls in one process, each complete call compared with the same call in a fresh process; distinct by history hash'
STATES = 'distinct (call, what happened just before) pairs'
ASSUME = ['only values returned by a call and the caller\'s own arguments are edited, never the package\'s own objects']

MODES = ('plain', 'bad', 'interrupt', 'io')


def gen(rng, idx, tier):
    names = sorted(C.OPS)
    pool, heavy = [], 0
    want = rng.choice([1, 2, 2, 3])
    while len(pool) < want:
        if not pool and rng.random() < 0.45:
            n = rng.choice([k for k in names if C.OPS[k].weight > 1])
        else:
            n = rng.choices(names, [C.OPS[k].weight for k in names])[0]
        p = None
        for _ in range(rng.choice([1, 2, 2])):
            again = p is not None and rng.random() < 0.7
            p = near(rng, p) if again else C.OPS[n].gen(rng)
            if p.get('cfg', {}).get('stage') == 'house':
                heavy += 1
                if heavy > (2 if again else 1):
                    continue
            pool.append([n, p])
    steps = []
    for k in range(rng.randint(5, 9)):
        n, p = rng.choice(pool)
        slow = p.get('cfg', {}).get('stage') == 'house'
        steps.append({'op': n, 'p': copy.deepcopy(p), 'mode': rng.choices(MODES, (6, 1, 1 if not slow else 0.4, 1.5 if C.OPS[n].dirs else 0.4))[0],
                      'after': rng.choice(['none', 'result', 'args', 'both', 'keep']), 'reuse': rng.random() < 0.3, 'seed': rng.randrange(1 << 30),
                      'at': int(10 ** rng.uniform(0, 4.3)), 'rel': rng.random() < 0.3})
    for n, p in pool[:3]:                    # every call once more at the end of the history
        steps.append({'op': n, 'p': copy.deepcopy(p), 'mode': 'plain', 'after': 'none', 'reuse': False, 'seed': 0, 'at': 1, 'rel': False})
    return {'steps': steps}


def near(rng, p):
    """the parameters of nearly the same call"""
    p = copy.deepcopy(p)
    c = p.get('cfg')
    if not c:
        if 'interval' in p and rng.random() < 0.7:
            p['interval'] = rng.choice([x for x in ('15m', '30m', '1h') if x != p['interval']])
        elif 'rooms' in p and rng.random() < 0.7:
            rng.shuffle(p['rooms'])
        elif 'n_d_main' in p:
            p['n_d_main'] = p['n_d_main'] % 365 + 1
        else:
            p['t'] = rng.randrange(1 << 20)
    elif c['stage'] == 'weather':
        c['interval'] = rng.choice([x for x in ('15m', '30m', '1h') if x != c['interval']])
    elif rng.random() < 0.35:
        c['roll'] = rng.choice([4, 96, rng.randint(1, 35039)])          # the same files with other contents of the same length
    elif c['stage'] == 'core' and rng.random() < 0.3:
        c['run']['n_d_run_up'] = 1 - c['run']['n_d_run_up']
    else:
        C.tweak(c['house'] if c['stage'] == 'core' else c['spec'], rng)
    return p


def shrink(scn):
    st = scn['steps']
    for part in (2, 4):
        if len(st) > part:
            for k in range(part):
                lo, hi = len(st) * k // part, len(st) * (k + 1) // part
                yield {'steps': st[:lo] + st[hi:]}
    for k in range(len(st)):
        if len(st) > 1:
            yield {'steps': st[:k] + st[k + 1:]}
    for k, s in enumerate(st):
        for name, v in (('mode', 'plain'), ('after', 'none'), ('reuse', False), ('rel', False)):
            if s[name] != v:
                yield {'steps': st[:k] + [dict(s, **{name: v})] + st[k + 1:]}
    seen = []
    for s in st:
        if s['p'].get('cfg') and s['p'] not in seen:
            seen.append(s['p'])
            less = {k: v for k, v in s['p']['cfg'].items() if k != 'roll'}
            for c in ([less] if less != s['p']['cfg'] else []) + list(S.shrink(s['p']['cfg'])):
                yield {'steps': [dict(t, p={'cfg': c}) if t['p'] == s['p'] else t for t in st]}


class Env:
    def __init__(self, inp, out):
        self.inp, self.out = inp, out


def clear(*dirs):
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)


def build(st, env):
    try:
        fn, args, kw = C.OPS[st['op']].build({k: v for k, v in st['p'].items() if k != 't'}, env)
    except (ImportError, AttributeError, TypeError) as e:
        if from_product(e):
            raise
        return gone, (str(e),), {}
    if 't' in st['p']:
        args, kw = C.tweak((args, kw), random.Random('tweak:%d' % st['p']['t']))
    return fn, args, kw


def gone(what):
    raise NotImplementedError('this call does not exist in this version: ' + what)


class Interrupter:
    """raises before the n-th line of the product that runs"""
    def __init__(self, at, seed):
        self.left, self.fired = at, False
        self.exc = MemoryError if seed % 2 else KeyboardInterrupt
        self.mine = {}

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in self.mine:
            self.mine[f] = os.path.realpath(f).startswith(tuple(rt.PRODUCT_ROOTS))
        return self.line if self.mine[f] else None

    def line(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                self.where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc('simulated')
        return self.line


def attempt(fn, args, kw):
    try:
        with H.Quiet():
            return True, fn(*args, **kw), None
    except (Exception, KeyboardInterrupt) as e:
        return False, None, '%s: %s' % (type(e).__name__, str(e)[:200])


def run(scn, ctx):
    steps = scn['steps']
    inp, out = ctx.scratch('inp'), ctx.scratch('out')
    C.prefetch(steps, ctx)
    ref = {}
    for st in steps:
        key = (st['op'], C.canon(st['p']))
        if key in ref:
            continue

        def fresh():
            clear(inp, out)
            fn, args, kw = build(st, Env(inp, out))
            disk = simfs.Disk(S.roots(inp, out))
            with disk:
                ok, r, err = attempt(fn, args, kw)
            return ok, C.canon(r), err, simfs.content(out), disk.trace
        ref[key] = simfs.process(ctx, fresh)
        if not ref[key][0]:
            ctx.probe('refused in a fresh process')
    last, before_this = {}, 'start'
    home = os.getcwd()
    for k, st in enumerate(steps):
        o = C.OPS[st['op']]
        good, want, _, files, trace = ref[st['op'], C.canon(st['p'])]
        name = st['op'] + (':' + st['p']['cfg']['stage'] if st['op'] == 'stage' else '')
        clear(inp, out)
        env = Env(os.path.relpath(inp, home), os.path.relpath(out, home)) if st['rel'] else Env(inp, out)
        fn, args, kw = build(st, env)
        if st['reuse'] and st['op'] in last:
            kw = {n: C.refill(last[st['op']][1][n], v) if n in last[st['op']][1] else v for n, v in kw.items()}
            args = C.refill(last[st['op']][0], args)
            ctx.probe('argument objects edited in place and passed again')
        mode = st['mode']
        if mode == 'io' and not trace:
            mode = 'plain'
        if mode == 'bad':
            r = random.Random('bad:%d' % st['seed'])
            if kw and (not args or r.random() < 0.5):
                kw = C.damage(kw, r)
            else:
                args = C.damage(args, r)
        before = C.canon((args, kw))
        ctx.state(name, before_this)
        where = 'call %d (%s) after %s' % (k + 1, name, before_this)
        if mode == 'interrupt':
            it = Interrupter(st['at'], st['seed'])
            sys.settrace(it.trace)
            try:
                ok, res, err = attempt(fn, args, kw)
            finally:
                sys.settrace(None)
            if it.fired:
                ctx.faults(['interrupted: ' + it.exc.__name__])
                ctx.state('interrupted', it.where)
            else:
                mode = 'plain'
        elif mode == 'io':
            r = random.Random('io:%d' % st['seed'])
            n = r.randrange(len(trace))
            kind, f = trace[n][:2]
            ordinal = sum(1 for t in trace[:n] if t[:2] == (kind, f))
            disk = simfs.Disk(S.roots(inp, out), {(kind, f, ordinal): ('error', r.choice(simfs.CAN[kind]), False)})
            with disk:
                ok, res, err = attempt(fn, args, kw)
            if disk.fired:
                ctx.faults(['disk error: ' + kind])
            else:
                mode = 'plain'
        else:
            ok, res, err = attempt(fn, args, kw)
        ctx.log(name, mode, ok)
        ctx.check(os.getcwd() == home, 'moves', lambda: '%s changed the working directory of the process (%s)' % (where, mode))
        same = C.canon((args, kw))
        ctx.check(same == before, 'changes its arguments', lambda: '%s modified its arguments (%s)' % (where, mode))
        if mode == 'plain':
            ctx.check(ok == good, 'history decides', lambda: '%s %s' % (where, 'fails although it succeeds in a fresh process: %s' % err if good
                                                                       else 'succeeds although it is refused in a fresh process'))
            if not ok:
                continue
            got = C.canon(res)
            ctx.log(got)
            ctx.check(got == want, 'history decides', lambda: '%s returns something else than in a fresh process' % where)
            if o.twice:
                ctx.check(C.canon(res[0]) == C.canon(res[1]), 'second answer differs', lambda: '%s: the same object answers the same question differently the second time' % where)
            now = simfs.content(out)
            for f in sorted(set(files) | set(now)):
                d = simfs.differs(files.get(f), now.get(f))
                ctx.check(d is None, 'history decides', lambda: '%s: %s %s' % (where, f, d))
            ctx.probe('calls compared with a fresh process')
        else:
            if mode == 'bad':
                ctx.faults(['malformed arguments' if not ok else 'malformed arguments accepted'])
        before_this = '%s %s' % (name, mode)
        after = st['after'] if mode == 'plain' else 'none'
        if after == 'keep' and ok:
            C.spoil(res)
            ctx.check(C.canon((args, kw)) == before, 'shares state with the caller',
                      lambda: 'editing what %s returned changes the arguments the caller passed' % where)
            if not o.dirs:
                ok2, res2, err2 = attempt(fn, args, kw)
                ctx.check(ok2 and C.canon(res2) == want, 'history decides',
                          lambda: '%s: the same call with the same argument objects returns something else after the caller edited the first result' % where)
            ctx.faults(['caller edits the returned value'])
        if after in ('result', 'both') and ok:
            C.spoil(res)
            ctx.faults(['caller edits the returned value'])
            before_this += ', result edited'
        last[st['op']] = (args, kw)
        if after in ('args', 'both'):
            C.spoil(args)
            C.spoil(kw)
            ctx.faults(['caller edits its arguments'])
            before_this += ', arguments edited'
        elif mode == 'bad':
            last.pop(st['op'], None)
        t = st['p'].get('cfg')
        if t and t['stage'] == 'core' and st['op'] == 'stage':
            ctx.ticks += S.ticks(t)
    for h in rt.guard_hits():
        ctx.fail('outside', 'touched %s' % (h,))
