"""C24: the order of the lists, further copies of a house and its scale change nothing but what they have to."""
import copy
import json
import os

import numpy as np

from .. import house as H
from .. import phys as P
from .. import pipe
from . import c23

LEVEL = 'exploration'
RUNS = (160, 5000)
LIMIT = 120
REAL = P.REAL + ['every eighth run: heat_load_calc.initializer (make_house) as well']
STUB = P.STUB
RULE = ('one run = one generated house and history executed twice, the second time transformed: rooms, boundaries and series in another '
        'order and under other names; two unconnected copies with their rooms and boundaries mixed up; everything extensive k times as large; '
        'all of these at once; or the specification in another order through house initialisation; distinct by history hash')
STATES = 'distinct (transformation, rooms, boundaries, mode reached) combinations'
ASSUME = P.ASSUME + ['equality is judged to 1e-6 of each quantity\'s scale (another order of summation rounds differently); no vote or load is '
                     'expected within rounding of a decision']
KINDS = ('order', 'copies', 'scale', 'all')
SIMILAR = ('mode', 'hc', 'hr', 'tr', 'rh', 'x', 'mrt', 'ot', 'ac', 'tf', 'xf')
EXTENSIVE = ('qtrs', 'qgen', 'xgen', 'qhum', 'xhum', 'lc', 'lr', 'lcl', 'qf', 'qsf', 'qlf', 'leak', 'vnat')
SURF, SURF_EXT = ('ts', 'te', 'tb', 'bhr', 'bhc', 'qall'), ('qr', 'qc', 'qsol')


def gen(rng, idx, tier):
    if idx % 8 == 7:
        scn = c23.gen(rng, 8 * rng.randrange(1, 9) + rng.choice([1, 2]), tier)
        d = scn['spec']
        scn.update(kind='spec', rooms=rng.sample(range(len(d['rooms'])), len(d['rooms'])),
                   bounds=rng.sample(range(len(d['boundaries'])), len(d['boundaries'])))
        scn['run']['n_d_main'] = 1
        return scn
    scn = P.gen(rng, rng.choice([0, 1, 2, 3, 4, 10]), tier, run=None, D=rng.choice([1, 1, 2]))
    D = scn['D']
    up = rng.choice([0, 0, 1])
    scn['run'] = {'n_d_main': D, 'n_d_run_up': up, 'n_d_run_up_build': rng.randint(0, up)}
    h = scn['house']
    kind = KINDS[idx % 4]
    m = 2 if kind in ('copies', 'all') else 1
    nr, nb = len(h['spaces']) * m, len(h['boundaries']) * m
    scn.update(kind=kind, m=m, k=rng.choice([2.0, 0.5, 3.0, round(rng.uniform(0.2, 6.0), 2)]) if kind in ('scale', 'all') else 1.0,
               rooms=list(range(nr)), bounds=list(range(nb)))
    if kind != 'scale':
        rng.shuffle(scn['rooms'])
        rng.shuffle(scn['bounds'])
    return scn


def shrink(scn):
    if scn['kind'] == 'spec':
        for s in c23.shrink(scn):
            if len(s['spec']['boundaries']) == len(scn['bounds']):
                yield s
        return
    for key in ('rooms', 'bounds'):
        if scn[key] != sorted(scn[key]):
            yield dict(scn, **{key: sorted(scn[key])})
    for s in H.shrink(scn):
        if len(s['house']['spaces']) == len(scn['house']['spaces']) and len(s['house']['boundaries']) == len(scn['house']['boundaries']) \
                and s['D'] == scn['D']:
            yield s


def transform(h, s, m, k, rooms, bounds):
    """m copies of the house, k times as large; new room p is old room rooms[p], counting through the copies"""
    I, J = len(h['spaces']), len(h['boundaries'])
    rpos = {r: p for p, r in enumerate(rooms)}
    bpos = {b: p for p, b in enumerate(bounds)}
    h2 = {'building': copy.deepcopy(h['building']), 'spaces': [], 'boundaries': []}
    for p, r in enumerate(rooms):
        c, i = divmod(r, I)
        o = copy.deepcopy(h['spaces'][i])
        o.update(id=p, name='zone %d' % p, volume=o['volume'] * k)
        v = o['ventilation']
        ns = [0.0] * (I * m)
        for a in range(I):
            ns[rpos[c * I + a]] = v['next_spaces'][a] * k
        v.update(mechanical=v['mechanical'] * k, natural=v['natural'] * k, next_spaces=ns)
        o['furniture'] = {a: x * k for a, x in o['furniture'].items()}
        big(o['equipment'], k)
        h2['spaces'].append(o)
    for p, b in enumerate(bounds):
        c, j = divmod(b, J)
        o = copy.deepcopy(h['boundaries'][j])
        o.update(id=p, name='part %d' % p, area=o['area'] * k, connected_space_id=rpos[c * I + o['connected_space_id']])
        if o['k_inside'] is not None:
            o['k_inside']['id'] = bpos[c * J + o['k_inside']['id']]
        h2['boundaries'].append(o)
    s2 = {a: x.copy() for a, x in s.items()}
    for a in s:
        if a == 'theta_sol':
            s2[a] = np.array([s[a][b % J] for b in bounds])
        elif s[a].ndim == 2:
            s2[a] = np.array([s[a][r % I] for r in rooms]) * (k if a in ('qtrs', 'q_gen', 'x_gen', 'occ', 'local_vent') else 1.0)
    return h2, s2


def big(e, k):
    for a, x in e.items():
        if isinstance(x, dict):
            big(x, k)
        elif a in ('max_capacity', 'q_min', 'q_max', 'v_min', 'v_max'):
            e[a] = x * k


def same(ctx, kind, what, v, w, rooms, bounds, k):
    for names, rows, f in ((SIMILAR, rooms, 1.0), (EXTENSIVE, rooms, k), (SURF, bounds, 1.0), (SURF_EXT, bounds, k)):
        of = 'room' if rows is rooms else 'surface'
        for c in names:
            a, b = getattr(v, c), getattr(w, c)
            ctx.check(b.shape[0] == len(rows) and b.shape[1] == a.shape[1], kind, 'shape of %s' % c)
            a = a[[r % a.shape[0] for r in rows]] * f
            scale = max(1e-3 if c in ('x', 'xf', 'leak', 'vnat') else 1e-6 if c in ('xgen', 'xhum', 'qlf') else 1.0, float(np.abs(a).max()))
            bad = ~(np.abs(a - b) <= 1e-6 * scale)
            if bad.any():
                p, n = np.argwhere(bad)[np.argmin(np.argwhere(bad)[:, 1])]
                ctx.fail(kind, '%s: %s of %s %d in row %d is %.9g instead of %.9g' % (what, c, of, p, n, b[p, n], a[p, n]))
                return False
    return True


def run(scn, ctx):
    kind = scn['kind']
    if kind == 'spec':
        return run_spec(scn, ctx)
    s, ds, dd, v = H.observe(scn, ctx)
    m, k = scn['m'], scn['k']
    h2, s2 = transform(scn['house'], s, m, k, scn['rooms'], scn['bounds'])
    d = ctx.scratch()
    H.write(d, h2, s2)
    ds2, dd2 = H.core_calc(d, None, **scn['run'])
    ctx.ticks += (scn['run']['n_d_main'] + scn['run']['n_d_run_up']) * H.STEPS
    ctx.faults(['reordered'] * (kind in ('order', 'all', 'copies')) + ['copied'] * (m > 1) + ['scaled'] * (k != 1.0))
    try:
        w = H.View(h2, dd2)
    except (KeyError, ValueError, TypeError, IndexError) as e:
        ctx.fail('report-shape', 'the detail table lacks or garbles a column: %r' % e)
        return
    ctx.log(*w.digest())
    for x in np.unique(v.mode):
        ctx.state(kind, v.I, v.J, int(x))
    ctx.probe('tick_panel_used', (np.abs(v.lr) > 1e-6).sum())
    ctx.probe('tick_coil_wet', (v.lcl < -1e-9).sum())
    ctx.probe('partitions', sum(b['k_inside'] is not None for b in scn['house']['boundaries']))
    what = {'order': 'listed in another order', 'copies': 'two unconnected copies', 'scale': '%g times as large' % k,
            'all': 'two copies, %g times as large, in another order' % k}[kind]
    same(ctx, kind, 'the house ' + what if kind != 'copies' else what, v, w, scn['rooms'], scn['bounds'], k)


def reorder(d, rooms, bounds):
    rpos = {r: p for p, r in enumerate(rooms)}
    bpos = {b: p for p, b in enumerate(bounds)}
    e = copy.deepcopy(d)
    e['rooms'] = [copy.deepcopy(d['rooms'][r]) for r in rooms]
    for p, r in enumerate(e['rooms']):
        r['id'] = p
        for v in r['next_vent']:
            v['upstream_room_id'] = rpos[v['upstream_room_id']]
    e['boundaries'] = [copy.deepcopy(d['boundaries'][b]) for b in bounds]
    for p, b in enumerate(e['boundaries']):
        b.update(id=p, connected_room_id=rpos[b['connected_room_id']])
        if 'rear_surface_boundary_id' in b:
            b['rear_surface_boundary_id'] = bpos[b['rear_surface_boundary_id']]
    return e


def run_spec(scn, ctx):
    d, r = scn['spec'], scn['run']
    if scn.get('schedules') is not None:
        pipe.install(ctx, {}, pipe.random_schedules(scn['schedules']))
        ctx.faults(['random_schedules'])
    w = c23.year(scn)
    out = []
    for spec in (d, reorder(d, scn['rooms'], scn['bounds'])):
        p = ctx.scratch()
        c23.write_year(p, w)
        pipe.make_house(json.loads(json.dumps(spec)), p, p)
        with open(os.path.join(p, 'mid_data_house.json'), encoding='utf-8') as f:
            house = json.load(f)
        ds, dd = H.core_calc(p, None, **r)
        ctx.ticks += (r['n_d_main'] + r['n_d_run_up']) * 96
        try:
            v = H.View(house, dd)
        except (KeyError, ValueError, TypeError, IndexError) as e:
            ctx.fail('report-shape', 'the detail table lacks or garbles a column: %r' % e)
            return
        ctx.log(*v.digest())
        out.append((v, {k: pipe.read_series(p, k) for k in pipe.SERIES}))
    ctx.faults(['reordered_specification'])
    ctx.state('spec', out[0][0].I, out[0][0].J, 0)
    for k in pipe.SERIES:
        a, b = out[0][1][k], out[1][1][k]
        a = a[scn['bounds'] if k == 'theta_sol' else scn['rooms']]
        ok = a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1.0 + np.abs(a)) * (1e-3 if k == 'x_gen' else 1.0)))
        ctx.check(ok, 'spec', 'the specification listed in another order: the series %s does not follow the order' % k)
    same(ctx, 'spec', 'the specification listed in another order', out[0][0], out[1][0], scn['rooms'], scn['bounds'], 1.0)
