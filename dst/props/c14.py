"""C14: no result looks into the future, and no room or series leaks into another."""
import copy

import numpy as np

from .. import house as H
from .. import phys as P

LEVEL = 'exploration'
RUNS = (400, 9000)
REAL, STUB = P.REAL, P.STUB
RULE = ('one run = one generated house and history executed twice, the second time with one injected disturbance (a late event, an event in '
        'a room without any connection, or a change with zero weight); distinct by history hash')
STATES = 'distinct (question, disturbed series, tick of day) triples'
ASSUME = P.ASSUME + ['outdoor temperature disturbances keep the annual mean (the deep ground temperature is the annual mean by definition)',
                     'equality is judged to 1e-7']
SERIES = ('theta_o', 'x_o', 'qtrs', 'q_gen', 'x_gen', 'occ', 'ac', 'local_vent', 'theta_sol')


EXTREME = {'theta_o': -25.0, 'x_o': 0.012, 'qtrs': 15000.0, 'q_gen': 4000.0, 'x_gen': 5e-4, 'occ': 12, 'local_vent': 0.3, 'theta_sol': 60.0}


def gen(rng, idx, tier):
    kind = ('future', 'future', 'locality', 'zero')[idx % 4]
    D = rng.choice([1, 2])
    N = D * H.STEPS
    f = {}
    if kind == 'locality':
        f = {'rooms': rng.choice([2, 3, 4]), 'pairs': False, 'interroom': False}
        if rng.random() < 0.4:
            f.update(rooms=rng.choice([3, 4]), pairs=True)
    scn = P.gen(rng, 5, tier, D=D, force=f)
    h = scn['house']
    nr, nb = len(h['spaces']), len(h['boundaries'])
    q = {'kind': kind, 'key': rng.choice(SERIES), 'n': rng.choice([rng.randrange(N), rng.randrange(N), N - 1, 1]), 'row': None,
         'seed': rng.randrange(10 ** 6), 'until': rng.random() < 0.5}
    if kind == 'locality':
        h['building'].update(c_value=0.0)
        if f.get('pairs'):                     # cut a graph into at least two parts
            part = [rng.random() < 0.5 for _ in range(nr)]
            part[0], part[-1] = True, False
            for b in h['boundaries']:
                if b['k_inside'] is not None:
                    o = h['boundaries'][b['k_inside']['id']]['connected_space_id']
                    if part[o] != part[b['connected_space_id']]:
                        b['k_inside'], b['k_outside'] = None, 1.0
        q['key'] = rng.choice([k for k in SERIES if k not in ('theta_o', 'x_o')])
    if kind == 'zero':
        zero = [j for j, b in enumerate(h['boundaries']) if b['k_outside'] == 0.0]
        if not zero:
            j = rng.randrange(nb)
            h['boundaries'][j].update(k_outside=0.0, k_inside={'id': j, 'coef': 1.0})
            zero = [j]
        q['key'] = rng.choice(['theta_sol', 'theta_sol', 'flr', 'vnat', 'panel'])
        q['row'] = rng.choice(zero)
    if q['key'] in ('qtrs', 'q_gen', 'x_gen', 'occ', 'ac', 'local_vent'):
        q['row'] = rng.randrange(nr)
    elif q['key'] == 'theta_sol' and kind != 'zero':
        q['row'] = rng.randrange(nb)
    if kind == 'future':
        if rng.random() < 0.6:                 # everything changes at once: no series may be looked up ahead of its time
            q.update(key='all', row=None)
        if q['key'] in ('ac', 'all') and rng.random() < 0.6 and q['n'] > 0:
            for i in range(nr):                # a demand that begins exactly at the disturbance
                scn['events'].append({'kind': 'demand_drop', 'key': 'ac', 'row': i, 'op': 'set', 'v': 0.0,
                                      'n0': max(0, q['n'] - rng.choice([1, 4, 20])), 'n1': q['n']})
        if q['n'] > 0 and rng.random() < 0.7:  # something extreme happens just before
            for key in rng.sample(sorted(EXTREME), rng.choice([1, 2, 3])):
                row = None if key in ('theta_o', 'x_o') else rng.randrange(nb if key == 'theta_sol' else nr)
                scn['events'].append({'kind': 'prelude', 'key': key, 'row': row, 'op': 'add', 'v': round(rng.choice([0.2, 1.0, 1.0]) * EXTREME[key], 6),
                                      'n0': max(0, q['n'] - rng.choice([1, 2, 8, 30])), 'n1': min(N, q['n'] + rng.choice([0, 0, 4]))})
    scn['q'] = q
    return scn


def shrink(scn):
    nr = len(scn['house']['spaces'])
    for s in H.shrink(scn):
        if len(s['house']['spaces']) == nr and s['D'] == scn['D']:
            yield s


def component(h, room):
    """rooms connected to ``room`` by air exchange or walls, in either direction"""
    nr = len(h['spaces'])
    adj = [set() for _ in range(nr)]
    for i, sp in enumerate(h['spaces']):
        for k, vv in enumerate(sp['ventilation']['next_spaces']):
            if vv:
                adj[i].add(k)
                adj[k].add(i)
    for b in h['boundaries']:
        if b['k_inside'] is not None:
            i, k = b['connected_space_id'], h['boundaries'][b['k_inside']['id']]['connected_space_id']
            adj[i].add(k)
            adj[k].add(i)
    seen, todo = {room}, [room]
    while todo:
        for k in adj[todo.pop()]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def disturb(s, q):
    r = np.random.RandomState(q['seed'])
    N = len(s['theta_o'])
    n0 = q['n']
    n1 = N if q['until'] else min(N, n0 + 1 + r.randint(12))
    t = {k: a.copy() for k, a in s.items()}
    for key in SERIES if q['key'] == 'all' else (q['key'],):
        rows = [q['row']] if q['row'] is not None else range(len(s[key])) if s[key].ndim > 1 else [None]
        for row in rows:
            touch(t, key, row, n0, n1, r)
    if q['key'] == 'all':                      # the deep ground keeps the annual mean of the outdoor temperature
        t['theta_sol'][q['ground']] = s['theta_sol'][q['ground']]
    return t


def touch(t, key, row, n0, n1, r):
    m = n1 - n0
    if key == 'theta_o':
        x = r.uniform(-15, 15, m)
        t[key][n0:n1] += np.round(x - x.mean(), 3) if m > 1 else 0.0
        t[key][n0] -= np.round(x - x.mean(), 3).sum() if m > 1 else 0.0
    elif key == 'x_o':
        t[key][n0:n1] = r.uniform(0, 0.02, m)
    elif key == 'ac':
        t[key][row, n0:n1] = r.choice([0.0, 0.5, 1.0, 1.0], m)
    else:
        amp = {'qtrs': 3000, 'q_gen': 3000, 'x_gen': 3e-4, 'occ': 10, 'local_vent': 0.2, 'theta_sol': 40}[key]
        t[key][row, n0:n1] += r.uniform(0.1, 1, m) * amp


def run(scn, ctx):
    q, h = scn['q'], scn['house']
    s, ds, dd, v = H.observe(scn, ctx)
    n0 = q['n']
    ctx.state(q['kind'], q['key'], n0 % H.STEPS)
    ctx.probe('question_' + q['kind'])
    h2 = h
    if q['kind'] == 'zero' and q['key'] != 'theta_sol':
        # a parameter that multiplies nothing in this history
        h2 = copy.deepcopy(h)
        s2 = s
        done = False
        for i, sp in enumerate(h2['spaces']):
            e = sp['equipment']
            if q['key'] == 'flr' and not e['heating']['radiative']['installed'] and not e['cooling']['radiative']['installed']:
                for b in h2['boundaries']:
                    if b['connected_space_id'] == i:
                        b['flr'] = 0.37
                        done = True
            if q['key'] == 'vnat' and not (v.mode[i] == 3).any():
                sp['ventilation']['natural'] *= 3.0
                done = True
            if q['key'] == 'panel' and e['heating']['radiative']['installed'] and not (v.mode[i] == 2).any() \
                    and np.abs(v.lr[i]).max() == 0:
                e['heating']['radiative']['max_capacity'] *= 2.0
                done = True
        ctx.probe('zero_weight_parameter', done)
    else:
        q = dict(q, ground=[j for j, b in enumerate(h['boundaries']) if b['is_ground'] == 'true'])
        s2 = disturb(s, q)
    d = ctx.scratch()
    H.write(d, h2, s2)
    ds2, dd2 = H.core_calc(d, None, **scn['run'])
    w = H.View(h2, dd2)
    ctx.ticks += v.n
    ctx.faults(['late_disturbance' if q['kind'] == 'future' else 'remote_disturbance' if q['kind'] == 'locality' else 'zero_weight_change'])
    ctx.log(*w.digest())
    rooms = ('mode', 'tr', 'rh', 'x', 'mrt', 'ot', 'qhum', 'xhum', 'lc', 'lr', 'lcl', 'tf', 'qf', 'xf', 'qlf', 'leak', 'vnat')
    walls = ('ts', 'te', 'tb', 'qr', 'qc', 'qsol', 'qall')
    if q['kind'] == 'future':
        rs, bs, hi = range(v.I), range(v.J), n0
        what = 'changing %s from step %d on' % (q['key'], n0)
    elif q['kind'] == 'locality':
        start = q['row'] if q['key'] != 'theta_sol' else h['boundaries'][q['row']]['connected_space_id']
        comp = component(h, start)
        rs = [i for i in range(v.I) if i not in comp]
        bs = [j for j, b in enumerate(h['boundaries']) if b['connected_space_id'] in rs]
        hi = v.n
        what = 'changing %s of %s' % (q['key'], q['row'])
        ctx.nontrivial = bool(rs)
        ctx.probe('rooms_unconnected', len(rs))
    else:
        rs, bs, hi = range(v.I), range(v.J), v.n
        what = 'changing the zero-weighted %s' % q['key']
        if q['key'] == 'vnat':
            walls, rooms = walls, tuple(c for c in rooms)
    ctx.probe('disturbance_had_effect', any(not np.array_equal(getattr(v, c), getattr(w, c)) for c in rooms + walls))
    for names, rows in ((rooms, rs), (walls, bs)):
        for c in names:
            a, b = getattr(v, c)[list(rows), :hi], getattr(w, c)[list(rows), :hi]
            if a.size == 0:
                continue
            bad = ~np.isclose(a, b, rtol=1e-7, atol=1e-7)
            if bad.any():
                k, n = np.argwhere(bad)[np.argmin(np.argwhere(bad)[:, 1])]
                ctx.fail(q['kind'], '%s changes %s of %s %d in row %d from %.9g to %.9g'
                         % (what, c, 'room' if names is rooms else 'surface', list(rows)[k], n, a[k, n], b[k, n]))
                return
