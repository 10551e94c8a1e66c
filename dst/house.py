"""Generated houses, generated environment histories and the hand-over files they are written to.

A scenario is plain JSON: {'house': <mid_data_house.json>, 'D': days of the synthetic year,
'base': parameters of the undisturbed environment, 'events': [...], 'run': keyword arguments of core.calc}.
The environment is the simulated world: its undisturbed course comes from ``base``; every disturbance the
seed injects is one entry of ``events`` (so that a failing history can be shrunk event by event).
"""
import contextlib
import copy
import csv
import io
import json
import math
import os

import numpy as np

from . import ref

STEPS = 96
ROOM_FILES = {'local_vent': 'mid_data_local_vent.csv', 'q_gen': 'mid_data_heat_generation.csv',
              'x_gen': 'mid_data_moisture_generation.csv', 'occ': 'mid_data_occupants.csv',
              'ac': 'mid_data_ac_demand.csv', 'qtrs': 'mid_data_q_trs_sol.csv'}
FILES = ['mid_data_house.json', 'weather.csv'] + list(ROOM_FILES.values()) + ['mid_data_theta_o_sol.csv']


# ------------------------------------------------------------------------------ houses
def _layers(rng, n=None, ground=False):
    """a layer list whose fixed-root response factors are contractive (see DESIGN.md, KF4)"""
    while True:
        ls = _raw_layers(rng, n)
        rs = [l['thermal_resistance'] for l in ls]
        cs = [1000.0 * l['thermal_capacity'] for l in ls]
        if ground:
            ok = ref.contractive(ref.wall_rf(cs + [9900000.0], rs + [3.0], True))
        else:
            ok = ref.contractive(ref.wall_rf(cs + [0.0], rs + [0.04], False)) and \
                ref.contractive(ref.wall_rf(cs[::-1] + [0.0], rs[::-1] + [0.15], False))
        if ok:
            return ls


def _raw_layers(rng, n=None):
    n = n or rng.randint(1, 4)
    out = []
    for k in range(n):
        kind = rng.random()
        if kind < 0.15:
            r, c = rng.uniform(0.05, 0.15), 0.0                       # air gap
        elif kind < 0.55:
            r, c = rng.uniform(0.5, 3.0), rng.uniform(0.3, 8.0)       # insulation
        else:
            r, c = rng.uniform(0.02, 0.3), rng.uniform(5.0, 150.0)    # board, concrete
        out.append({'name': 'l%d' % k, 'thermal_resistance': round(r, 4), 'thermal_capacity': round(c, 3)})
    return out


def _direct_rf(rng):
    """a passive wall given by its response factors: a few roots, positive a1, t sums to one"""
    m = rng.randint(1, 4)
    r = [round(math.exp(-900.0 * 10 ** rng.uniform(-5.5, -3.0)), 9) for _ in range(m)]
    a1 = [round(rng.uniform(0.0005, 0.02), 7) for _ in range(m)]
    t0 = rng.uniform(0.02, 0.4)
    w = [rng.uniform(0.2, 1.0) for _ in range(m)]
    s = sum(w)
    t1 = [(1.0 - t0) * wi / s * (1.0 - ri) for wi, ri in zip(w, r)]
    pad = [0.0] * (12 - m)
    return {'method': 'response_factor', 'phi_a0': round(rng.uniform(0.02, 0.2), 5), 'phi_a1': a1 + pad,
            'phi_t0': t0, 'phi_t1': t1 + pad, 'r': r + pad}


def fan(rng, qmax):
    """fan of a cooler: the flow is extrapolated below the smallest output and stays positive down to no output at all"""
    q_min = rng.choice([500.0, round(rng.uniform(200.0, 1200.0), 1)])
    v_min, v_max = round(rng.uniform(8.0, 12.0), 2), round(rng.uniform(12.5, 20.0), 2)
    while v_min - (v_max - v_min) / (qmax - q_min) * q_min < 1.0:
        q_min = round(q_min * 0.7, 1)
    return {'q_min': q_min, 'q_max': qmax, 'v_min': v_min, 'v_max': v_max}


def coincide(rng, bds, nr):
    """make unlike things agree in a total: two rooms of equal surface area, two walls of equal resistance and capacity"""
    if nr > 1 and rng.random() < 0.5:
        i, k = rng.sample(range(nr), 2)
        a, b = ([x for x in bds if x['room'] == r] for r in (i, k))
        if len(a) != len(b):
            return
        free = [x for x in b if x['kind'] != 'pair']
        diff = sum(x['area'] for x in a) - sum(x['area'] for x in b)
        old = [x['area'] for x in b]
        for x in free:
            x['area'] = round(x['area'] + diff * x['area'] / sum(y['area'] for y in free), 2) if diff else x['area']
            if x['area'] <= 1.0:
                break
        if free:
            free[0]['area'] = round(free[0]['area'] + sum(x['area'] for x in a) - sum(x['area'] for x in b), 2)
        now = [x['area'] for x in b]
        if min(now) <= 1.0 or max(now) > 0.33 * sum(now) or not ref.geometry_ok(now):
            for x, o in zip(b, old):
                x['area'] = o
    else:
        w = [x for x in bds if x['kind'] in ('wall', 'td') and 'layers' in x['spec'] and len(x['spec']['layers']) > 1]
        if len(w) > 1:
            a, b = rng.sample(w, 2)
            b['spec']['layers'] = [dict(l) for l in reversed(a['spec']['layers'])]
            if rng.random() < 0.5:
                b['spec']['outside_heat_transfer_resistance'] = a['spec']['outside_heat_transfer_resistance']


def gen_house(rng, feat):
    nr = feat.get('rooms') or rng.choice([1, 2, 2, 3, 3, 4] * 4 + [6])
    rooms, bds = [], []
    uid = [0]

    def add(**kw):
        kw['uid'] = uid[0]
        uid[0] += 1
        bds.append(kw)
        return kw['uid']

    for i in range(nr):
        n_ext = rng.randint(2, 4) if rng.random() < 0.97 else rng.randint(9, 12)
        base = rng.uniform(6.0, 22.0)
        area = lambda: round(base * rng.uniform(0.6, 1.4), 2)
        for _ in range(n_ext):
            if feat.get('direct_rf') and rng.random() < 0.3:
                spec = _direct_rf(rng)
            else:
                spec = {'method': 'layers', 'boundary_type': 'external_general_part', 'layers': _layers(rng),
                        'outside_heat_transfer_resistance': rng.choice([0.04, 0.11, 0.15, 0.09, round(rng.uniform(0.02, 0.2), 3)])}
            add(room=i, area=area(), spec=spec, ko=1.0, link=None, kind='wall', absorb=rng.random() < 0.4)
        if rng.random() < 0.8:
            u = round(rng.uniform(1.2, 6.0), 3)
            add(room=i, area=round(base * rng.uniform(0.15, 0.6), 2), kind='window', ko=1.0, link=None, absorb=False,
                spec={'method': 'u_value', 'boundary_type': 'external_transparent_part', 'u_value': u,
                      'inside_heat_transfer_resistance': 0.11})
        if rng.random() < 0.3:
            add(room=i, area=round(base * rng.uniform(0.1, 0.3), 2), kind='door', ko=1.0, link=None, absorb=False,
                spec={'method': 'u_value', 'boundary_type': 'external_opaque_part',
                      'u_value': round(rng.uniform(1.0, 5.0), 3), 'inside_heat_transfer_resistance': 0.11})
        if feat.get('td') and rng.random() < 0.7:
            # space behind the wall at a mixture of outdoor and own indoor temperature
            td = rng.choice([0.7, 0.25, 0.15, 0.05, 0.0, 0.5])
            j = add(room=i, area=area(), kind='td', ko=td, link=None, absorb=rng.random() < 0.5,
                    spec={'method': 'layers', 'boundary_type': 'internal', 'layers': _layers(rng),
                          'outside_heat_transfer_resistance': rng.choice([0.09, 0.11, 0.15])})
            bds[-1]['link'] = (j, 1.0 - td)
        if feat.get('ground') and (i == 0 or rng.random() < 0.4):
            add(room=i, area=area(), kind='ground', ko=1.0, link=None, absorb=True, ground=True,
                spec={'method': rng.choice(['layers', 'layers_ground'][:1]), 'boundary_type': 'ground',
                      'layers': _layers(rng, rng.randint(1, 2), True), 'outside_heat_transfer_resistance': 0.11})
    for i in range(nr):
        for k in range(i + 1, nr):
            if feat.get('pairs') and rng.random() < 0.6:
                lay = _layers(rng)
                a = round(rng.uniform(6.0, 20.0), 2)
                a2 = round(rng.uniform(6.0, 20.0), 2) if feat.get('odd_pairs') and rng.random() < 0.5 else a
                rso = rng.choice([0.09, 0.11, 0.15])
                j1 = add(room=i, area=a, kind='pair', ko=0.0, link=None, absorb=rng.random() < 0.5,
                         spec={'method': 'layers', 'boundary_type': 'internal', 'layers': lay,
                               'outside_heat_transfer_resistance': rso})
                j2 = add(room=k, area=a2, kind='pair', ko=0.0, link=None, absorb=rng.random() < 0.5,
                         spec={'method': 'layers', 'boundary_type': 'internal',
                               'layers': [dict(l) for l in reversed(lay)], 'outside_heat_transfer_resistance': rso})
                c = 1.0
                bds[-2]['link'] = (j2, c)
                bds[-1]['link'] = (j1, c)
                if feat.get('odd_pairs') and rng.random() < 0.4:
                    # mixture of a neighbour room and outdoors
                    c = rng.choice([0.5, 0.8, 0.3])
                    bds[-2]['link'] = (j2, c)
                    bds[-2]['ko'] = round(1.0 - c, 6)
    for i in range(nr):
        if feat.get('td') and rng.random() < 0.2:             # an inner wall standing in the room: both faces in one room
            lay = _layers(rng)
            js = [add(room=i, area=round(base * rng.uniform(0.3, 1.0), 2), kind='inner', ko=0.0, link=None, absorb=rng.random() < 0.5,
                      spec={'method': 'layers', 'boundary_type': 'internal', 'layers': [dict(l) for l in ls], 'outside_heat_transfer_resistance': rng.choice([0.09, 0.11, 0.15])})
                  for ls in (lay, lay[::-1])]
            bds[-2]['link'], bds[-1]['link'] = (js[1], 1.0), (js[0], 1.0)
        if feat.get('pairs') and feat.get('odd_pairs') and nr > 1 and rng.random() < 0.15:     # a wall that sees another room's surface without being seen
            k = rng.choice([x for x in range(nr) if x != i])
            c = rng.choice([1.0, 0.6, 0.2])
            add(room=i, area=round(base * rng.uniform(0.3, 1.0), 2), kind='seer', ko=round(1.0 - c, 6), absorb=rng.random() < 0.5,
                link=(rng.choice([b['uid'] for b in bds if b['room'] == k and not b.get('ground')]), c),
                spec={'method': 'layers', 'boundary_type': 'internal', 'layers': _layers(rng), 'outside_heat_transfer_resistance': rng.choice([0.09, 0.11, 0.15])})
    # every room needs a surface pattern the radiation model accepts: cap the largest share
    for i in range(nr):
        mine = [b for b in bds if b['room'] == i]
        while len(mine) < 4:
            add(room=i, area=round(rng.uniform(6.0, 15.0), 2), kind='wall', ko=1.0, link=None, absorb=True,
                spec={'method': 'layers', 'boundary_type': 'external_general_part', 'layers': _layers(rng),
                      'outside_heat_transfer_resistance': 0.04})
            mine = [b for b in bds if b['room'] == i]
        for _ in range(60):
            tot = sum(b['area'] for b in mine)
            big = max(mine, key=lambda b: b['area'])
            if big['area'] <= 0.33 * tot and ref.geometry_ok([b['area'] for b in mine]):
                break
            if big['area'] > 0.33 * tot or True:
                small = min(mine, key=lambda b: b['area'])
                big['area'] = round(big['area'] * 0.93, 2)
                small['area'] = round(small['area'] * 1.08, 2)
        if not any(b['absorb'] for b in mine):
            mine[0]['absorb'] = True
    for _ in range(3):
        coincide(rng, bds, nr)

    order = list(range(len(bds)))
    if feat.get('shuffle'):
        rng.shuffle(order)
    pos = {bds[o]['uid']: p for p, o in enumerate(order)}
    out_b = []
    for o in order:
        b = bds[o]
        hc = rng.choice([0.7, 2.5, 5.0, round(rng.uniform(0.7, 5.0), 2), round(rng.uniform(0.7, 5.0), 2)])
        out_b.append({
            'id': len(out_b), 'name': '%s%d' % (b['kind'], b['uid']), 'sub_name': '', 'is_ground':
            'true' if b.get('ground') else 'false', 'boundary_type': b['spec'].get('boundary_type', 'internal'),
            'connected_space_id': b['room'], 'area': b['area'], 'h_i': round(hc + 5.0, 3), 'h_c': hc, 'flr': 0.0,
            'is_solar_absorbed': 'True' if b['absorb'] else 'False', 'f_mrt_hum': 0.0, 'k_outside': b['ko'],
            'k_inside': None if b['link'] is None else {'id': pos[b['link'][0]], 'coef': b['link'][1]},
            'spec': b['spec']})
    for i in range(nr):
        mine = [b for b in out_b if b['connected_space_id'] == i]
        w = [rng.uniform(0.2, 1.0) * b['area'] for b in mine]
        for b, x in zip(mine, w):
            b['f_mrt_hum'] = x / sum(w)
        vol = round(rng.uniform(15.0, 120.0), 2)
        rad_h = bool(feat.get('panel')) and rng.random() < (0.9 if feat.get('panels_all') else 0.6)
        rad_c = bool(feat.get('panel')) and rng.random() < (0.8 if feat.get('panels_all') else 0.5)
        if rad_h or rad_c or rng.random() < 0.2:
            pick = mine if rng.random() < 0.3 else rng.sample(mine, rng.randint(1, min(3, len(mine))))
            w = [rng.uniform(0.2, 1.0) for _ in pick]
            for b, x in zip(pick, w):
                b['flr'] = x / sum(w)
        floor = sum(b['area'] for b in mine) / 5.0
        qmax = round(rng.uniform(1500.0, 6000.0), 1)
        ns = [0.0] * nr
        if feat.get('interroom') and nr > 1:
            for k in range(nr):
                if k != i and rng.random() < 0.5:
                    ns[k] = round(rng.uniform(0.02, 0.18) * vol / 900.0, 6)
        rooms.append({
            'id': i, 'name': 'room%d' % i, 'volume': vol, 'beta': rng.choice([0.0, 0.0, 0.15, 0.5] * 3 + [1.0]) if (rad_h or rad_c)
            else rng.choice([0.0, 0.1]),
            'ventilation': {'mechanical': round(rng.choice([0.0, rng.uniform(10.0, 120.0)]) / 3600.0, 6),
                            'next_spaces': ns, 'natural': round(rng.choice([rng.uniform(0.5, 20.0)] * 9 + [0.0]) * vol / 3600.0, 6)},
            'furniture': {'heat_capacity': round(12600.0 * vol * rng.uniform(0.3, 1.5), 1),
                          'heat_cond': round(0.00022 * 12600.0 * vol * rng.uniform(0.3, 1.5), 4),
                          'moisture_capacity': round(16.8 * vol * rng.uniform(0.3, 1.5), 3),
                          'moisture_cond': round(0.0018 * 16.8 * vol * rng.uniform(0.3, 1.5), 6)},
            'equipment': {
                'heating': {'radiative': {'installed': True, 'max_capacity': round(rng.uniform(20.0, 140.0) * floor / 3, 1)}
                            if rad_h else {'installed': False}, 'convective': {'installed': not rad_h}},
                'cooling': {'radiative': {'installed': rad_c, 'max_capacity': round(rng.uniform(10.0, 80.0) * floor / 3, 1)},
                            'convective': dict({'installed': True}, **fan(rng, qmax))}}})
    for r in rooms:                                   # the product reads the panel capacity in two places
        c = r['equipment']['cooling']
        c['max_capacity'] = c['radiative']['max_capacity']
    if nr > 1 and rng.random() < 0.4:                 # rooms that agree in some numbers and not in others
        a, b = rng.sample(rooms, 2)
        for where, key in ((None, 'volume'), ('ventilation', 'mechanical'), ('ventilation', 'natural'), ('furniture', 'heat_capacity'),
                           ('furniture', 'heat_cond'), ('furniture', 'moisture_capacity'), ('furniture', 'moisture_cond')):
            if rng.random() < 0.5:
                if where is None:
                    b[key] = a[key]
                else:
                    b[where][key] = a[where][key]
    return {'building': {'infiltration_method': 'balance_residential', 'story': rng.choice([1, 2]),
                         'c_value': round(rng.choice([0.0, rng.uniform(0.2, 5.0), rng.uniform(5.0, 15.0)]), 3),
                         'inside_pressure': rng.choice(['balanced', 'positive', 'negative'])},
            'spaces': rooms, 'boundaries': out_b}


def features(rng, **force):
    f = {'shuffle': rng.random() < 0.6, 'pairs': rng.random() < 0.6, 'odd_pairs': rng.random() < 0.3,
         'td': rng.random() < 0.5, 'ground': rng.random() < 0.45, 'direct_rf': rng.random() < 0.3,
         'panel': rng.random() < 0.5, 'interroom': rng.random() < 0.3}
    f.update(force)
    return f


# ------------------------------------------------------------------------------ environment
EVENT_KINDS = ('cold_snap', 'heat_wave', 'solar_burst', 'humidity_spike', 'dry_air', 'occupancy_surge', 'demand_drop',
               'demand_on', 'demand_flap', 'partial_demand', 'vent_surge', 'appliance_burst', 'vapour_burst', 'wall_heat',
               'wall_chill')


def gen_base(rng, nr, nb, regime=None):
    regime = regime or rng.choice(['cold', 'cold', 'hot', 'hot', 'mild', 'swing'])
    mean, amp = {'cold': (rng.uniform(-8, 8), rng.uniform(2, 6)), 'hot': (rng.uniform(26, 33), rng.uniform(2, 6)),
                 'mild': (rng.uniform(14, 24), rng.uniform(3, 9)), 'swing': (rng.uniform(10, 25), rng.uniform(8, 18))}[regime]
    return {'regime': regime, 'mean': round(mean, 2), 'amp': round(amp, 2), 'drift': round(rng.uniform(0, 5), 2),
            'noise': rng.choice([0.0, 0.3]), 'nseed': rng.randrange(10 ** 6), 'rh': round(rng.uniform(0.3, 0.85), 2),
            'solar': [round(rng.choice([0.0, rng.uniform(100, 1200)]), 1) for _ in range(nr)],
            'wall': [round(rng.uniform(0.0, 15.0), 2) for _ in range(nb)],
            'q_gen': [round(rng.uniform(0, 250), 1) for _ in range(nr)],
            'x_gen': [round(rng.choice([rng.uniform(0, 4e-5)] * 9 + [0.0]), 8) for _ in range(nr)],
            'occ': [rng.choice([0, 1, 2, 3.5]) for _ in range(nr)],
            'ac': [rng.choice(['on', 'on', 'day', 'off', 'night'] * 3 + ['part', 'half']) for _ in range(nr)],
            'vent': [round(rng.choice([0.0, rng.uniform(0, 0.08)]), 5) for _ in range(nr)]}


def gen_events(rng, nr, nb, n, count=None, kinds=None, n_from=0):
    out = []
    kinds = list(kinds or rng.sample(EVENT_KINDS, rng.randint(3, len(EVENT_KINDS))))
    for _ in range(count if count is not None else rng.choice([0, 2, 4, 8, 12])):
        k = rng.choice(kinds)
        n0 = rng.randrange(n_from, n)
        ln = rng.choice([1, 1, 2, 4, 8, 24, 60])
        i, j = rng.randrange(nr), rng.randrange(nb)
        e = {'kind': k, 'n0': n0, 'n1': min(n, n0 + ln)}
        if k == 'cold_snap':
            e.update(key='theta_o', row=None, op=rng.choice(['add', 'ramp']), v=-round(rng.uniform(3, 25), 2))
        elif k == 'heat_wave':
            e.update(key='theta_o', row=None, op=rng.choice(['add', 'ramp']), v=round(rng.uniform(3, 20), 2))
        elif k == 'solar_burst':
            e.update(key='qtrs', row=i, op='add', v=round(rng.choice([rng.uniform(100, 3000)] * 5 + [rng.uniform(3000, 15000)]), 1))
        elif k == 'humidity_spike':
            e.update(key='x_o', row=None, op='add', v=round(rng.uniform(0.002, 0.012), 5))
        elif k == 'dry_air':
            e.update(key='x_o', row=None, op='set', v=round(rng.uniform(0.0, 0.002), 5))
        elif k == 'occupancy_surge':
            e.update(key='occ', row=i, op='add', v=rng.choice([1, 4, 12, 0.5]))
        elif k == 'demand_drop':
            e.update(key='ac', row=i, op='set', v=0.0)
        elif k == 'demand_on':
            e.update(key='ac', row=i, op='set', v=1.0)
        elif k == 'demand_flap':
            e.update(key='ac', row=i, op='alt', v=rng.choice([1, 2, 3]))
        elif k == 'partial_demand':
            e.update(key='ac', row=i, op='set', v=rng.choice([0.3, 0.5, 0.75, 0.9]))
        elif k == 'vent_surge':
            e.update(key='local_vent', row=i, op='add', v=round(rng.uniform(0.01, 0.2), 4))
        elif k == 'appliance_burst':
            e.update(key='q_gen', row=i, op='add', v=round(rng.uniform(100, 3000), 1))
        elif k == 'vapour_burst':
            e.update(key='x_gen', row=i, op='add', v=round(rng.uniform(1e-5, 5e-4), 7))
        elif k == 'wall_heat':
            e.update(key='theta_sol', row=j, op='add', v=round(rng.uniform(5, 40), 2))
        elif k == 'wall_chill':
            e.update(key='theta_sol', row=j, op='add', v=-round(rng.uniform(3, 15), 2))
        out.append(e)
    return out


def expand(scn):
    """scenario -> series arrays (rooms x N, boundaries x N)"""
    h, b, N = scn['house'], scn['base'], scn['D'] * STEPS
    nr, nb = len(h['spaces']), len(h['boundaries'])
    n = np.arange(N)
    hour = (n % STEPS) / 4.0
    rs = np.random.RandomState(b['nseed'])
    t = b['mean'] + b['amp'] * np.sin(2 * np.pi * (hour - 9.0) / 24.0) + b['drift'] * np.sin(2 * np.pi * n / max(N, 1))
    t = t + b['noise'] * rs.uniform(-1, 1, N)
    s = {'theta_o': np.round(t, 3)}
    s['x_o'] = np.round(np.array([ref.x_of_pv(ref.p_vs(v) * b['rh']) for v in t]), 6)
    day = np.maximum(0.0, np.sin(np.pi * (hour - 6.0) / 12.0))
    s['qtrs'] = np.round(np.outer(np.array(b['solar']), day), 4)
    s['theta_sol'] = np.zeros((nb, N))
    s['q_gen'] = np.outer(np.array(b['q_gen']), 0.5 + 0.5 * ((hour >= 7) & (hour < 22)))
    s['x_gen'] = np.outer(np.array(b['x_gen']), ((hour >= 7) & (hour < 9)) | ((hour >= 18) & (hour < 20))).astype(float)
    home = ~((hour >= 9) & (hour < 16))
    s['occ'] = np.outer(np.array(b['occ'], float), home).astype(float)
    pat = {'on': np.ones(N), 'off': np.zeros(N), 'day': ((hour >= 7) & (hour < 22)).astype(float),
           'night': ((hour < 7) | (hour >= 21)).astype(float), 'half': np.full(N, 0.5), 'part': np.where((hour >= 6) & (hour < 20), 0.8, 0.25)}
    s['ac'] = np.array([pat[a] for a in b['ac']], float)
    s['local_vent'] = np.outer(np.array(b['vent']), ((hour >= 11) & (hour < 13)) | ((hour >= 18) & (hour < 20))).astype(float)
    late = []
    for e in scn['events']:
        if e['key'] == 'theta_sol':
            late.append(e)
            continue
        _apply(s, e)
    s['x_o'] = np.maximum(0.0, s['x_o'])
    ave = float(np.average(s['theta_o']))
    for j, bd in enumerate(h['boundaries']):
        s['theta_sol'][j] = ave if bd['is_ground'] == 'true' else np.round(s['theta_o'] + b['wall'][j] * day, 4)
    for e in late:
        if h['boundaries'][e['row']]['is_ground'] != 'true':
            _apply(s, e)
    return s


def _apply(s, e):
    a = s[e['key']]
    sl = slice(e['n0'], e['n1'])
    tgt = a[sl] if e['row'] is None else a[e['row'], sl]
    m = tgt.shape[-1]
    if e['op'] == 'add':
        tgt += e['v']
    elif e['op'] == 'ramp':
        tgt += e['v'] * (1.0 + np.arange(m)) / m
    elif e['op'] == 'set':
        tgt[...] = e['v']
    elif e['op'] == 'alt':
        tgt[...] = (np.arange(m) // e['v']) % 2
    else:
        raise ValueError(e['op'])


def write(d, house, s):
    """hand-over files, in the form the house initialisation writes them"""
    with open(os.path.join(d, 'mid_data_house.json'), 'w') as f:
        json.dump(house, f, indent=4)
    for k, name in ROOM_FILES.items():
        _csv(os.path.join(d, name), s[k])
    _csv(os.path.join(d, 'mid_data_theta_o_sol.csv'), s['theta_sol'])
    N = len(s['theta_o'])
    with open(os.path.join(d, 'weather.csv'), 'w') as f:
        f.write(',temperature,absolute humidity,normal direct solar radiation,horizontal sky solar radiation,'
                'outward radiation,sun altitude,sun azimuth\n')
        for n in range(N):
            dd, hh, mm = n // 96, n % 96 // 4, n % 4 * 15
            f.write('d%d %02d:%02d,%r,%r,0.0,0.0,0.0,0.0,0.0\n' % (dd + 1, hh, mm, float(s['theta_o'][n]), float(s['x_o'][n])))


def _csv(path, a):
    with open(path, 'w') as f:
        w = csv.writer(f, lineterminator='\n')
        w.writerows([[float(v) for v in row] for row in a.T])


class Quiet:
    """stdout of the product goes nowhere"""
    def __enter__(self):
        import sys
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o


def core_calc(d, out=None, **kw):
    from heat_load_calc.core import core
    with Quiet():
        return core.calc(input_data_dir=d, output_data_dir=out, **kw)


def simulate(scn, ctx, out=None, **kw):
    """write the scenario's files to a scratch directory and run the real load calculation on it"""
    d = ctx.inp = ctx.scratch()
    s = expand(scn)
    write(d, scn['house'], s)
    run = dict(scn['run'])
    run.update(kw)
    ds, dd = core_calc(d, out, **run)
    ctx.faults(e['kind'] for e in scn['events'])
    ctx.ticks += (run['n_d_main'] + run['n_d_run_up']) * STEPS
    return d, s, ds, dd


def observe(scn, ctx, out=None, **kw):
    """simulate, and read the detail table; a table that cannot be read or holds no numbers is a violation"""
    from .rt import Violation
    d, s, ds, dd = simulate(scn, ctx, out, **kw)
    rows = dict(scn['run'], **kw)['n_d_main'] * STEPS
    try:
        v = View(scn['house'], dd)
    except (KeyError, ValueError, TypeError, IndexError) as e:
        raise Violation('report-shape', 'the detail table lacks or garbles a column: %r' % e)
    if v.n != rows:
        raise Violation('report-shape', 'the detail table has %d rows instead of %d' % (v.n, rows))
    for k, a in (('t_r', v.tr), ('x_r', v.x), ('ot', v.ot), ('t_s', v.ts), ('t_e', v.te), ('qiall_s', v.qall),
                 ('l_s_c', v.lc), ('l_s_r', v.lr), ('l_l_c', v.lcl), ('t_fun', v.tf), ('x_fun', v.xf), ('t_b', v.tb),
                 ('mrt', v.mrt), ('q_hum_s', v.qhum), ('v_reak', v.leak)):
        if not np.isfinite(a).all():
            i, n = np.argwhere(~np.isfinite(a))[0]
            raise Violation('not-finite', 'column %s of row %d is not a finite number' % (k, n))
    ctx.log(*v.digest())
    return s, ds, dd, v


class View:
    """the detail table as arrays, rooms x rows and boundaries x rows (boundaries in file order)"""
    def __init__(self, house, dd):
        self.I, self.J, self.n = len(house['spaces']), len(house['boundaries']), len(dd)
        g = lambda c: np.array(dd[c].values)
        r = lambda c: np.array([g('rm%d_%s' % (i, c)) for i in range(self.I)])
        self.to, self.xo = g('out_temp').astype(float), g('out_abs_humid').astype(float)
        self.mode = np.array([[int(getattr(m, "value", m)) for m in g('rm%d_ac_operate' % i)] for i in range(self.I)])
        for a, c in (('ac', 'occupancy'), ('hc', 'hc_hum'), ('hr', 'hr_hum'), ('tr', 't_r'), ('rh', 'rh_r'), ('x', 'x_r'),
                     ('mrt', 'mrt'), ('ot', 'ot'), ('qtrs', 'q_sol_t'), ('qgen', 'q_s_except_hum'),
                     ('xgen', 'q_l_except_hum'), ('qhum', 'q_hum_s'), ('xhum', 'q_hum_l'), ('lc', 'l_s_c'), ('lr', 'l_s_r'),
                     ('lcl', 'l_l_c'), ('tf', 't_fun'), ('qf', 'q_s_fun'), ('qsf', 'q_s_sol_fun'), ('xf', 'x_fun'),
                     ('qlf', 'q_l_fun'), ('leak', 'v_reak'), ('vnat', 'v_ntrl')):
            setattr(self, a, r(c).astype(float))
        self.remarks = [[json.loads(t) for t in g('rm%d_remarks' % i)] for i in range(self.I)]
        cols = {}
        cnt = [0] * self.I
        for b in house['boundaries']:
            i = b['connected_space_id']
            cols[len(cols)] = 'rm%d_b%d_' % (i, cnt[i])
            cnt[i] += 1
        for a, c in (('ts', 't_s'), ('te', 't_e'), ('tb', 't_b'), ('bhr', 'hir_s'), ('qr', 'qir_s'), ('bhc', 'hic_s'),
                     ('qc', 'qic_s'), ('qsol', 'qisol_s'), ('qall', 'qiall_s')):
            setattr(self, a, np.array([g(cols[j] + c) for j in range(self.J)]).astype(float))

    def digest(self):
        return [self.mode, self.tr, self.x, self.ot, self.lc, self.lr, self.lcl, self.ts, self.qall]


# ------------------------------------------------------------------------------ scenario generation and shrinking
def gen_scenario(rng, feat=None, D=None, run=None, regime=None, events=None):
    feat = feat if feat is not None else features(rng)
    h = gen_house(rng, feat)
    nr, nb = len(h['spaces']), len(h['boundaries'])
    D = D or rng.choice([1, 1, 2])
    return {'house': h, 'D': D, 'base': gen_base(rng, nr, nb, regime),
            'events': gen_events(rng, nr, nb, D * STEPS, events),
            'run': run or {'n_d_main': D, 'n_d_run_up': 0, 'n_d_run_up_build': 0}, 'feat': {k: v for k, v in feat.items() if v}}


def shrink(scn):
    """simpler neighbours of a scenario, most aggressive first"""
    ev = scn['events']
    if scn['D'] > 8:
        r = scn['run']
        for d in (4, 16, scn['D'] // 4, scn['D'] // 2, scn['D'] * 3 // 4):
            if d < scn['D'] and r['n_d_main'] == scn['D'] and not r['n_d_run_up']:
                yield dict(scn, D=d, run=dict(r, n_d_main=d), events=[e for e in ev if e['n1'] <= d * STEPS])
        if scn['D'] > 32 and ev:
            yield dict(scn, events=[])
        if scn['D'] > 32:
            return
    n = len(ev)
    if n:
        yield dict(scn, events=[])
        if n > 3:
            yield dict(scn, events=ev[:n // 2])
            yield dict(scn, events=ev[n // 2:])
        for k in range(n):
            yield dict(scn, events=ev[:k] + ev[k + 1:])
    if scn['D'] > 1:
        s = copy.deepcopy(scn)
        s['D'] = scn['D'] - 1
        s['events'] = [e for e in s['events'] if e['n1'] <= s['D'] * STEPS]
        r = s['run']
        if r['n_d_main'] > s['D']:
            r['n_d_main'] = s['D']
        if all(r[k] <= s['D'] for k in ('n_d_main', 'n_d_run_up', 'n_d_run_up_build')):
            yield s
    h = scn['house']
    if len(h['spaces']) > 1:
        for i in range(len(h['spaces'])):
            s = _drop_room(scn, i)
            if s is not None:
                yield s
    b = scn['base']
    for key, zero in (('noise', 0.0), ('drift', 0.0), ('amp', 0.0)):
        if b[key] != zero:
            yield dict(scn, base=dict(b, **{key: zero}))
    for key in ('solar', 'wall', 'q_gen', 'x_gen', 'occ', 'vent'):
        if any(b[key]):
            yield dict(scn, base=dict(b, **{key: [0.0] * len(b[key])}))
    for i, sp in enumerate(h['spaces']):
        if any(sp['ventilation']['next_spaces']):
            s = copy.deepcopy(scn)
            s['house']['spaces'][i]['ventilation']['next_spaces'] = [0.0] * len(h['spaces'])
            yield s
    for j, bd in enumerate(h['boundaries']):
        lay = bd['spec'].get('layers')
        if lay and len(lay) > 1:
            s = copy.deepcopy(scn)
            s['house']['boundaries'][j]['spec']['layers'] = lay[:1]
            yield s


def _drop_room(scn, i):
    s = copy.deepcopy(scn)
    h = s['house']
    for b in h['boundaries']:
        if b['k_inside'] is not None:
            other = h['boundaries'][b['k_inside']['id']]['connected_space_id']
            if (other == i) != (b['connected_space_id'] == i):
                b['k_inside'] = None
                b['k_outside'] = 1.0
    keep = [j for j, b in enumerate(h['boundaries']) if b['connected_space_id'] != i]
    pos = {j: p for p, j in enumerate(keep)}
    h['boundaries'] = [h['boundaries'][j] for j in keep]
    for p, b in enumerate(h['boundaries']):
        b['id'] = p
        if b['connected_space_id'] > i:
            b['connected_space_id'] -= 1
        if b['k_inside'] is not None:
            b['k_inside']['id'] = pos[b['k_inside']['id']]
    del h['spaces'][i]
    for k, sp in enumerate(h['spaces']):
        sp['id'] = k
        del sp['ventilation']['next_spaces'][i]
    for k in ('solar', 'q_gen', 'x_gen', 'occ', 'ac', 'vent'):
        del s['base'][k][i]
    s['base']['wall'] = [s['base']['wall'][j] for j in keep]
    ev = []
    for e in s['events']:
        if e['row'] is None:
            ev.append(e)
        elif e['key'] == 'theta_sol':
            if e['row'] in pos:
                ev.append(dict(e, row=pos[e['row']]))
        elif e['row'] != i:
            ev.append(dict(e, row=e['row'] - (e['row'] > i)))
    s['events'] = ev
    return s
