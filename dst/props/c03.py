"""C03: the load calculation refuses damaged hand-over files instead of computing on."""
import json
import os
import random
import sys

from .. import house as H
from .. import pipe
from .. import simfs
from .. import stages as S

LEVEL = 'exploration'
RUNS = (72, 2400)
LIMIT = 240
WALL = (400, 3000)
REAL = ['core.calc with result files; make_weather and make_house in the crash histories']
STUB = ['the durable state of the hand-over files (lost, torn, zeroed, emptied, ragged, exchanged) and the answers of open and read', 'process death']
RULE = ('one run = one house, either fourteen damages of its hand-over files one after the other (each undone again, with undamaged runs in between), or errors '
        'while the files are read, or a crash of an earlier stage in a fresh directory followed by the later stages; distinct by history hash')
STATES = 'distinct (file, damage, outcome) combinations'
ASSUME = ['a tear that only shortens the last field of the last row is not recognisable in these formats and is not judged',
          'after a tear, a load calculation that returns exactly the undamaged result is accepted']
SER = sorted(pipe.SERIES.values())
ROWS = ('missing', 'empty', 'lost_tail', 'lost_head', 'lost_middle', 'repeated', 'torn', 'zeros', 'blank', 'ragged', 'words', 'columns', 'gap')
VAR = {'gap': ('temperature', 'humidity'), 'blank': ('one', 'few'), 'ragged': ('fewer', 'more'), 'columns': ('lost', 'more'), 'lost_tail': ('one', 'many'), 'lost_head': ('one', 'many'), 'torn': ('row', 'field'),
       'zeros': ('row', 'field')}
GRID = [(f, h, v) for f in SER + ['weather.csv'] for h in ROWS for v in VAR.get(h, ('',)) if h != 'gap' or f == 'weather.csv'] + [
    ('mid_data_house.json', h, '') for h in ('missing', 'empty', 'torn', 'torn', 'torn', 'zeros', 'other', 'other', 'tail', 'tail', 'twice')]
random.Random('grid').shuffle(GRID)


def gen(rng, idx, tier):
    q = ['damage', 'damage', 'read', 'damage', 'crash', 'damage'][idx % 6]
    if q == 'crash':
        d = pipe.gen_spec(rng, rooms=rng.choice([1, 2, 3]))
        return {'q': q, 'spec': d, 'seed': rng.randrange(1 << 30), 'tries': 3}
    cfg = S.gen(rng, 'core')
    todo = []
    for k in range(14):
        f, how, var = GRID[((idx // 6 * 4 + (0, 1, 1, 2, 2, 3)[idx % 6]) * 14 + k) % len(GRID)]
        todo.append({'file': f, 'how': how, 'var': var, 'seed': rng.randrange(1 << 30), 'warm': rng.random() < 0.3})
    return {'q': q, 'cfg': cfg, 'todo': todo, 'seed': rng.randrange(1 << 30), 'other': S.gen(rng, 'core')['house'] if q == 'damage' else None}


def shrink(scn):
    if scn['q'] == 'crash':
        for d in pipe.shrink_spec(scn['spec']):
            yield dict(scn, spec=d)
        return
    t = scn['todo']
    if len(t) > 1:
        for k in range(len(t)):
            yield dict(scn, todo=[t[k]])
        for k in range(len(t)):
            yield dict(scn, todo=t[:k] + t[k + 1:])
    for c in S.shrink(scn['cfg']):
        yield dict(scn, cfg=c)


# ------------------------------------------------------------------------------ damages
def damage(rng, name, data, how, other, var=''):
    """the damaged bytes (None: no file), and what was done; or 'same' if this damage does not apply to this file"""
    if how == 'missing':
        return None, 'missing'
    if how == 'empty':
        return b'', 'empty'
    if name.endswith('.json'):
        if how == 'torn':
            k = rng.randrange(1, len(data.rstrip()))
            return data[:k], 'cut after %d of %d bytes' % (k, len(data))
        if how == 'zeros':
            k = rng.randrange(0, len(data.rstrip()))
            return data[:k] + b'\0' * (len(data) - k), 'zeroed from byte %d' % k
        if how in ('tail', 'twice'):                                        # the end of an older, longer file is still there
            old = json.dumps(other, indent=4).encode()
            k = rng.choice([1, 2, 40, rng.randrange(1, len(old)), rng.randrange(1, len(old))])
            rest = data.rstrip() if how == 'twice' else old[-k:]
            return (data + rest if rest.strip() else 'same'), 'followed by %d bytes of an older file' % len(rest)
        a = json.loads(data)
        if len(a['spaces']) == len(other['spaces']) and len(a['boundaries']) == len(other['boundaries']):
            return 'same', ''
        return json.dumps(other, indent=4).encode(), 'of a house with %d rooms and %d boundaries' % (len(other['spaces']), len(other['boundaries']))
    weather = name == 'weather.csv'
    lines = data.decode().split('\n')
    if lines[-1] == '':
        lines.pop()
    head, rows = (lines[:1], lines[1:]) if weather else ([], lines)
    n = len(rows)
    text = lambda r, h=None: ('\n'.join((head if h is None else h) + r) + '\n').encode()
    if how == 'lost_tail':
        k = 1 if var == 'one' else rng.randint(2, n - 1)
        return text(rows[:-k]), 'last %d rows lost' % k
    if how == 'lost_head':
        k = 1 if var == 'one' else rng.randint(2, n - 1)
        return text(rows[k:]), 'first %d rows lost' % k
    if how == 'lost_middle':
        p = rng.randrange(1, n - 1)
        k = rng.randint(1, n - 1 - p)
        return text(rows[:p] + rows[p + k:]), '%d rows after row %d lost' % (k, p)
    if how == 'repeated':
        p, k = rng.randrange(n), rng.choice([1, 2, 96])
        return text(rows[:p] + [rows[p]] * k + rows[p:]), 'row %d written %d times too many' % (p, k)
    r = rng.choice([0, n - 1, rng.randrange(n)])
    w = rows[r].split(',')
    lead = 1 if weather else 0
    if how in ('torn', 'zeros'):
        full = text(rows)
        last = len(full) - len(rows[-1]) - 1
        k = rng.choice([last, rng.randrange(len(full) * 2 // 3, last), rng.randrange(1, last)])
        w = rows[-1].split(',')
        if (len(w) > 1 or weather) and var == 'field':                  # inside the last row, before its last field (weather: humidity)
            k = last + len(','.join(w[:2 if weather else len(w) - 1]))
        if how == 'zeros':
            return full[:k] + b'\0' * (len(full) - k), 'zeroed from byte %d of %d' % (k, len(full))
        return full[:k], 'cut after %d of %d bytes' % (k, len(full))
    if how == 'gap':                                                        # one or a few rows of the weather without temperature or humidity
        if not weather:
            return 'same', ''
        c, k = (1, 2)[var == 'humidity'], rng.choice([1, 1, 3, 12])
        if head[0].split(',')[c] != {'temperature': 'temperature', 'humidity': 'absolute humidity'}[var]:
            c = head[0].split(',').index({'temperature': 'temperature', 'humidity': 'absolute humidity'}[var])
        p = min(r, n - k)
        cut = lambda x: ','.join('' if i == c else f for i, f in enumerate(x.split(',')))
        return text(rows[:p] + [cut(x) for x in rows[p:p + k]] + rows[p + k:]), 'no %s in %d rows from row %d on' % (var, k, p)
    if how == 'blank':
        w[rng.randrange(lead, 3 if weather else len(w))] = ''
        if var == 'few':
            w[rng.randrange(lead, 3 if weather else len(w))] = ''
        return text(rows[:r] + [','.join(w)] + rows[r + 1:]), 'blank field in row %d' % r
    if how == 'words':
        w[rng.randrange(lead, 3 if weather else len(w))] = rng.choice(['#REF!', '12.3.4', '--', 'a'])
        return text(rows[:r] + [','.join(w)] + rows[r + 1:]), 'no number in row %d' % r
    if how == 'ragged':
        if weather:
            w = w[:rng.choice([1, 2])] if var == 'fewer' else w + ['1.0']
        else:
            w = w[:-1] if var == 'fewer' else w + ['1.0']
        return text(rows[:r] + [','.join(w)] + rows[r + 1:]), 'row %d has %d fields' % (r, len(w))
    if how == 'columns':
        if weather:
            c = rng.choice([1, 2])
            drop = lambda x: ','.join(f for k, f in enumerate(x.split(',')) if k != c)
            return text([drop(x) for x in rows], [drop(head[0])]), 'column %s lost' % head[0].split(',')[c]
        if var == 'lost':
            if len(w) == 1:
                return 'same', ''
            c = rng.randrange(len(w))
            return text([','.join(f for k, f in enumerate(x.split(',')) if k != c) for x in rows]), 'column %d lost' % c
        return text([x + ',' + x.split(',')[-1] for x in rows]), 'a column too many'
    raise ValueError(how)


def unrecognisable(clean, got):
    """got only lacks a part of the last field (or the final line end)"""
    if got is None or not clean.startswith(got):
        return False
    a, b = clean.rstrip(b'\n').split(b'\n'), got.split(b'\n')
    if b and b[-1] == b'':
        b.pop()
    return len(a) == len(b) and len(a[-1].split(b',')) == len(b[-1].split(b',')) and b[-1].split(b',')[-1] != b''


# ------------------------------------------------------------------------------ runs
def run(scn, ctx):
    if scn['q'] == 'crash':
        return run_crash(scn, ctx)
    cfg = scn['cfg']
    inp, out = ctx.scratch('in'), ctx.scratch('out')
    S.prepare(cfg, inp)
    clean = simfs.content(inp)
    o = simfs.attempt(lambda: S.invoke(cfg, inp, out))
    ctx.check(o.how == 'ok', 'refused', 'the load calculation refuses undamaged files: %s' % o.error)
    ref, refv = simfs.content(out), o.value
    ctx.ticks += S.ticks(cfg)
    ctx.log(refv)
    for f in S.RESULTS:
        os.unlink(os.path.join(out, f))
    if scn['q'] == 'read':
        return run_read(scn, ctx, inp, out, ref, refv)
    for k, t in enumerate(scn['todo']):
        rng = random.Random('c03:%d' % t['seed'])
        bad, what = damage(rng, t['file'], clean[t['file']], t['how'], scn['other'], t['var'])
        if bad == 'same' or bad == clean[t['file']]:
            ctx.probe('damage_not_applicable')
            continue
        p = os.path.join(inp, t['file'])
        if t['warm']:
            ctx.check(S.invoke(cfg, inp, out) == refv, 'other-numbers', 'undamaged files give other numbers after damaged ones were refused')
        elif k % 2:
            for f in S.RESULTS:                      # no older results in the way
                if os.path.exists(os.path.join(out, f)):
                    os.unlink(os.path.join(out, f))
        before = simfs.content(out)
        if bad is None:
            os.unlink(p)
        else:
            with open(p, 'wb') as g:
                g.write(bad)
        o = simfs.attempt(lambda: S.invoke(cfg, inp, out))
        ctx.faults(['%s_%s' % ('json' if p.endswith('json') else 'weather' if t['file'] == 'weather.csv' else 'series', t['how'])])
        ctx.state(t['file'], t['how'], t['var'], o.how)
        ctx.log(t['file'], what, o.how, o.error)
        if not (o.how == 'ok' and o.value == refv and t['how'] in ('torn', 'zeros')):
            ctx.check(o.how == 'error', 'computed-on', 'the load calculation returned numbers although %s is damaged (%s)' % (t['file'], what))
            after = simfs.content(out)
            ctx.check(after == before, 'results-written', 'the load calculation refused %s (%s) but changed the result files %s' % (
                t['file'], what, sorted(f for f in set(after) | set(before) if after.get(f) != before.get(f))))
        with open(p, 'wb') as g:
            g.write(clean[t['file']])
    o = simfs.attempt(lambda: S.invoke(cfg, inp, out))
    ctx.check(o.how == 'ok' and o.value == refv and simfs.content(out) == ref, 'other-numbers', 'the undamaged files are not computed as before')


def run_read(scn, ctx, inp, out, ref, refv):
    cfg = scn['cfg']
    disk = simfs.Disk(S.roots(inp))
    o = simfs.attempt(lambda: S.invoke(cfg, inp, out), disk)
    ctx.check(o.how == 'ok' and o.value == refv, 'other-numbers', 'the same files give other numbers the second time')
    cl = [c for c in S.classes(disk.trace).items() if c[0][1].startswith('mid_data') or c[0][1] == 'weather.csv']
    rng = random.Random('read:%d' % scn['seed'])
    for (kind, name), n in rng.sample(cl, min(14, len(cl))):
        for f in S.RESULTS:
            if os.path.exists(os.path.join(out, f)):
                os.unlink(os.path.join(out, f))
        err = rng.choice(simfs.CAN[kind])

        def life():
            sys.unraisablehook = lambda *a: None
            disk = simfs.Disk(S.roots(inp), {(kind, name, S.place(rng, n)): ('error', err, rng.random() < 0.5)}, rng.choice([0.0, 0.4]), scn['seed'])
            o = simfs.attempt(lambda: S.invoke(cfg, inp, out), disk)
            return o, disk.fired
        o, fired = simfs.process(ctx, life)
        ctx.faults(['%s@%s' % f for f in fired])
        ctx.state(name, kind, err, o.how)
        ctx.log(name, kind, err, o.how, o.error)
        have = simfs.content(out)
        if o.how == 'ok':
            ctx.check(o.value == refv and have == ref, 'computed-on', 'the load calculation returned other numbers although %s of %s failed with %s' % (kind, name, err))
        else:
            ctx.check(not have, 'results-written', 'the load calculation raised at %s of %s but left result files %s' % (kind, name, sorted(have)))


def run_crash(scn, ctx):
    """a fresh directory; weather generation or house initialisation dies; somebody runs the later stages all the same"""
    d = scn['spec']
    chain = [{'stage': 'weather', 'region': d['common']['region'], 'interval': '15m'}, {'stage': 'house', 'spec': d},
             {'stage': 'core', 'run': {'n_d_main': 1, 'n_d_run_up': 1, 'n_d_run_up_build': 0}}]
    a = ctx.scratch('clean')

    def reference():
        out, cl = [], []
        for cfg in chain:
            disk = simfs.Disk(S.roots(a))
            out.append(simfs.attempt(lambda: S.invoke(cfg, a, a), disk))
            cl.append([c for c in S.classes(disk.trace, True).items()])
        return out, cl
    ref, cl = simfs.process(ctx, reference)
    ctx.check(all(o.how == 'ok' for o in ref), 'refused', 'a legal house is refused: %s' % [o.error for o in ref if o.how != 'ok'][:1])
    want = simfs.content(a)
    ctx.ticks += 192
    for t in range(scn['tries']):
        rng = random.Random('crash:%d:%d' % (scn['seed'], t))
        b = ctx.scratch('b%d' % t)
        first = rng.choice([0, 1, 1])
        mark, n = rng.choice(cl[first])
        at = S.place(rng, n)

        def life():
            sys.unraisablehook = lambda *a: None
            for cfg in chain[:first]:
                S.invoke(cfg, b, b)
            disk = simfs.Disk(S.roots(b), {mark + (at,): ('crash',)})
            o = simfs.attempt(lambda: S.invoke(chain[first], b, b), disk)
            return o, disk.after_crash(rng, rng.random() < 0.7)
        o, left = simfs.process(ctx, life)
        ctx.check(o.how == 'crash', 'clean-run-differs', 'the operations of the stage are not those of its first run')
        blind = any(unrecognisable(want[f], g) and g != want[f] for f, g in simfs.content(b).items() if f in want)

        def later():
            o = []
            for cfg in chain[first + 1:]:
                o.append(simfs.attempt(lambda: S.invoke(cfg, b, b)))
                if o[-1].how != 'ok':
                    break
            return o[-1]
        o = simfs.process(ctx, later)
        ctx.faults(['crash_in_%s' % chain[first]['stage']] + ['write_' + h for h in left.values()])
        ctx.state('crash', chain[first]['stage'], *mark, o.how)
        ctx.log(mark, at, sorted(left.items()), o.how, o.error)
        if blind:
            ctx.probe('unrecognisable_tear')
            continue
        have = simfs.content(b)
        if o.how == 'ok':
            ctx.check(o.value == ref[2].value, 'computed-on', 'the load calculation returned other numbers after %s died at %s of %s (%s)' % (
                chain[first]['stage'], mark[0], mark[1], sorted(left.items())))
        else:
            ctx.check(not any(f in have for f in S.RESULTS), 'results-written', 'result files were written although the calculation was refused')
