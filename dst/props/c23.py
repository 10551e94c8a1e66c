"""C23: the simulated house is the specified house."""
import copy
import json
import os
import random

import numpy as np

from .. import house as H
from .. import pipe
from .. import ref
from .. import rt
from .c12 import variants
from .c18 import compare

LEVEL = 'exploration'
RUNS = (64, 1600)
LIMIT = 120
REAL = ['heat_load_calc.initializer (make_house, make_house_for_test and everything below)', 'heat_load_calc.core (whole load calculation on '
        'the produced files)', 'hand-over files on a real scratch file system']
STUB = ['the weather file of the year comes from the seeded simulator (instead of make_weather)', 'half of the runs: packaged schedules of a '
        'private installation']
RULE = ('one run = one generated specification (rooms, equipment, air paths, boundaries and partitions in shuffled order); run: taken through '
        'make_house and a load calculation of 1-2 days under a seeded year with a spell of heat or cold, and compared row by row with the '
        'independent model built from the specification; paper: every accepted kind of equipment, house file only; refuse: a specification '
        'with one damaged reference or unknown word; distinct by the hash of the recorded history or of the house file')
STATES = 'distinct (question, equipment kinds, boundary kinds, neighbour air) combinations'
ASSUME = ['the hand-over series are taken as written (their timing is C17)', 'KF1/KF2 houses: one form (known or correct) has to explain the whole run',
          'layer stacks whose fixed-root response factors are contractive (KF4)', 'trajectories: every room has a convective cooler and a heater '
          '(other equipment is judged on the house file only)']
DAMAGE = ('room_id', 'room_order', 'second_main', 'no_main', 'story', 'pressure', 'heating', 'cooling', 'boundary_kind', 'boundary_order',
          'boundary_id', 'boundary_twice', 'no_such_room', 'negative_room', 'no_such_partner', 'negative_partner', 'no_such_upstream',
          'negative_upstream', 'room_name', 'direction')


def gen(rng, idx, tier):
    q = 'refuse' if idx % 8 == 7 else 'paper' if idx % 4 == 3 else 'run'
    d = example() if idx == 0 else pipe.gen_spec(rng, next_vents=rng.random() < (0.2 if q == 'run' else 0.7))
    if q == 'refuse':
        while not any(b['boundary_type'] == 'internal' for b in d['boundaries']):
            d = pipe.gen_spec(rng, rooms=3, next_vents=True)
        return {'q': q, 'spec': d, 'damage': [DAMAGE[(idx // 8 + k * 7) % len(DAMAGE)] for k in range(4)], 'pick': rng.randrange(10 ** 6),
                'seed': rng.randrange(10 ** 6)}
    if q == 'paper':
        for r in d['rooms']:
            fa = r['floor_area']
            panel = lambda: {'equipment_type': 'radiative', 'radiative': {'max_capacity': round(rng.uniform(40, 160), 1),
                                                                          'area': round(fa * rng.uniform(0.3, 1.4), 2)}}
            k = rng.randrange(4)
            if k < 2:
                r['heating_equipment'] = {'equipment_type': 'not_installed'} if k else panel()
            k = rng.randrange(4)
            if k < 2:
                r['cooling_equipment'] = {'equipment_type': 'not_installed'} if k else panel()
        if len(d['rooms']) > 1 and rng.random() < 0.3:
            r = rng.choice([r for r in d['rooms'] if r['room_type'] != 'main_occupant_room'])
            r['room_type'] = 'underfloor'
        return {'q': q, 'spec': d, 'seed': rng.randrange(10 ** 6)}
    # own convective heater data, coolers that differ from room to room
    for r in d['rooms']:
        r['cooling_equipment']['convective'] = H.fan(rng, round(rng.uniform(1500, 7000), 1))
    up = rng.choice([0, 1, 2])
    return {'q': q, 'spec': d, 'seed': rng.randrange(10 ** 6), 'regime': rng.choice(['cold', 'hot', 'swing', 'mild']),
            'schedules': None if idx % 2 else rng.randrange(10 ** 6), 'spell': [rng.randrange(0, 60), rng.randrange(8, 100), round(rng.uniform(-12, 12), 1)],
            'run': {'n_d_main': rng.choice([1, 2]), 'n_d_run_up': up, 'n_d_run_up_build': rng.randint(0, up)}}


def example():
    with open(os.path.join(rt.VERIF, 'dst', 'corpus', 'c23-residential.json'), encoding='utf-8') as f:
        return json.load(f)


def shrink(scn):
    if scn['q'] == 'refuse':
        for k in range(len(scn['damage'])):
            if len(scn['damage']) > 1:
                yield dict(scn, damage=[scn['damage'][k]])
        return
    if scn['q'] == 'run':
        r = scn['run']
        if r['n_d_run_up']:
            yield dict(scn, run=dict(r, n_d_run_up=0, n_d_run_up_build=0))
        if r['n_d_main'] > 1:
            yield dict(scn, run=dict(r, n_d_main=1))
        if scn['schedules'] is not None:
            yield dict(scn, schedules=None)
        if scn['spell'][2]:
            yield dict(scn, spell=[0, 0, 0.0])
    for d in pipe.shrink_spec(scn['spec']):
        yield dict(scn, spec=d)


# ------------------------------------------------------------------------------ environment
def year(scn):
    rs = np.random.RandomState(scn['seed'])
    n = np.arange(pipe.YEAR)
    mean, amp = {'cold': (3.0, 6.0), 'hot': (28.0, 6.0), 'swing': (14.0, 14.0), 'mild': (18.0, 4.0)}[scn.get('regime', 'mild')]
    hour = n % 96 / 4.0
    t = mean + amp * np.sin((hour - 9.0) / 24.0 * 2 * np.pi) - 4.0 * np.cos(n / pipe.YEAR * 2 * np.pi) * (mean > 10) + 2.0 * rs.uniform(-1, 1, len(n))
    if 'spell' in scn:
        a, m, v = scn['spell']
        t[a:a + m] += v
    t = np.round(t, 3)
    x = np.round(ref.x_of_pv(1000.0 * rs.uniform(0.4, 0.7)) * (0.6 + 0.4 * rs.uniform(0.5, 1.0, 365).repeat(96)) * (0.4 if mean < 10 else 1.6 if mean > 25 else 1.0), 6)
    alt = 1.1 * np.sin((hour - 6.0) / 12.0 * np.pi)
    day = alt > 0.05
    dn = np.round(np.where(day, rs.uniform(0, 700, 365).repeat(96) * (hour % 1 * 0.2 + 0.8), 0.0), 3)
    sky = np.round(np.where(day, rs.uniform(20, 250, 365).repeat(96), 0.0), 3)
    return {'temperature': t, 'absolute humidity': x, 'normal direct solar radiation': dn, 'horizontal sky solar radiation': sky,
            'outward radiation': np.round(rs.uniform(0, 100, 8760).repeat(4), 3), 'sun altitude': alt, 'sun azimuth': (hour - 12.0) / 12.0 * 2.6}


def write_year(d, w):
    with open(os.path.join(d, 'weather.csv'), 'w') as f:
        f.write(',' + ','.join(w) + '\n')
        cols = [w[k].tolist() for k in w]
        for n in range(pipe.YEAR):
            f.write('1989-%d %02d:%02d,%s\n' % (n // 96, n % 96 // 4, n % 4 * 15, ','.join(repr(c[n]) for c in cols)))


# ------------------------------------------------------------------------------ the house the specification describes
def spec_house(d):
    rooms, n = d['rooms'], len(d['rooms'])
    sp, bs = [], []
    for i, r in enumerate(rooms):
        nv = [0.0] * n
        for v in r['next_vent']:
            nv[v['upstream_room_id']] += v['volume'] / 3600.0
        h, c, V = r['heating_equipment'], r['cooling_equipment'], r['volume']
        eq = {'heating': {'radiative': {'installed': False}, 'convective': {'installed': h['equipment_type'] == 'convective'}},
              'cooling': {'radiative': {'installed': False}, 'convective': {'installed': c['equipment_type'] == 'convective'}}}
        for side, e in (('heating', h), ('cooling', c)):
            if e['equipment_type'] == 'radiative':
                eq[side]['radiative'] = {'installed': True, 'max_capacity': e['radiative']['max_capacity'] * e['radiative']['area']}
        if c['equipment_type'] == 'convective':
            eq['cooling']['convective'].update({k: c['convective'][k] for k in ('q_min', 'q_max', 'v_min', 'v_max')})
        cap, cax = 12600.0 * V, 16.8 * V
        sp.append({'id': i, 'name': r['name'], 'volume': V, 'beta': 0.0,
                   'ventilation': {'mechanical': r['vent'] / 3600.0, 'next_spaces': nv, 'natural': V * r['natural_vent_time'] / 3600.0},
                   'furniture': {'heat_capacity': cap, 'heat_cond': 0.00022 * cap, 'moisture_capacity': cax, 'moisture_cond': 0.0018 * cax},
                   'equipment': eq})
    fl = [0.0] * n
    rest = [0.0] * n
    for b in d['boundaries']:
        (fl if b['is_floor'] else rest)[b['connected_room_id']] += b['area']
    for j, b in enumerate(d['boundaries']):
        i, kind = b['connected_room_id'], b['boundary_type']
        td = {'internal': 0.0, 'ground': 1.0}.get(kind, b.get('temp_dif_coef'))
        o = {'id': j, 'name': b['name'], 'is_ground': 'true' if kind == 'ground' else 'false', 'connected_space_id': i, 'area': b['area'],
             'h_i': 1.0 / b['inside_heat_transfer_resistance'], 'h_c': b['h_c'], 'is_solar_absorbed': str(bool(b['is_solar_absorbed_inside'])),
             'flr': b['area'] / fl[i] if b['is_floor'] and rooms[i]['heating_equipment']['equipment_type'] == 'radiative' else 0.0,
             'f_mrt_hum': 0.45 * b['area'] / fl[i] if b['is_floor'] else 0.55 * b['area'] / rest[i], 'k_outside': td,
             'k_inside': {'id': b['rear_surface_boundary_id'], 'coef': 1.0} if kind == 'internal' else {'id': j, 'coef': 1.0 - td} if td < 1 else None}
        o['spec'] = {'method': 'layers' if 'layers' in b else 'u_value', 'boundary_type': kind}
        keys = ('layers',) if kind == 'ground' else ('layers', 'outside_heat_transfer_resistance') if 'layers' in b else (
            'u_value', 'inside_heat_transfer_resistance')
        for k in keys:
            o['spec'][k] = b[k]
        bs.append(o)
    b = d['building']
    return {'building': {'story': b['story'], 'c_value': b['c_value'], 'inside_pressure': b['inside_pressure']}, 'spaces': sp, 'boundaries': bs}


def differs(want, got, path=''):
    """first place where the house file says something else than the specification (further keys are its own business)"""
    if isinstance(want, dict):
        if path.endswith('/k_inside') and got is None and want['coef'] == 0:
            return None
        if not isinstance(got, dict):
            return '%s is %r' % (path, got)
        for k, v in want.items():
            if k == 'method':
                continue
            if k == 'name' and '/layers' in path:
                continue
            if k not in got:
                return '%s/%s is missing' % (path, k)
            x = differs(v, got[k], path + '/' + k)
            if x:
                return x
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, list) or len(got) != len(want):
            return '%s has %s entries instead of %d' % (path, len(got) if isinstance(got, list) else 'no', len(want))
        for k, v in enumerate(want):
            x = differs(v, got[k], '%s/%d' % (path, k))
            if x:
                return x
        return None
    if want is None:
        ok = got is None or isinstance(got, dict) and got.get('coef') == 0
    elif isinstance(want, bool):
        ok = bool(got) == want and not isinstance(got, str)
    elif isinstance(want, (int, float)):
        ok = isinstance(got, (int, float)) and abs(got - want) <= 1e-9 * max(1e-3, abs(want))
    else:
        ok = got == want
    return None if ok else '%s is %r instead of %r' % (path, got, want)


# ------------------------------------------------------------------------------ specifications that describe no house
def damage(d, kind, pick):
    d = copy.deepcopy(d)
    rng = random.Random(pick)
    rooms, bds = d['rooms'], d['boundaries']
    part = [b for b in bds if b['boundary_type'] == 'internal']
    r, b = rng.choice(rooms), rng.choice(bds)
    if kind == 'room_id':
        r['id'] += rng.choice([1, len(rooms)])
    elif kind == 'room_order':
        if len(rooms) < 2:
            return None
        rooms.append(rooms.pop(0))
    elif kind == 'second_main':
        if len(rooms) < 2:
            return None
        r['room_type'] = 'main_occupant_room'
        if sum(x['room_type'] == 'main_occupant_room' for x in rooms) < 2:
            return None
    elif kind == 'no_main':
        for x in rooms:
            if x['room_type'] == 'main_occupant_room':
                x['room_type'] = 'underfloor'
    elif kind == 'story':
        d['building']['story'] = 3
    elif kind == 'pressure':
        d['building']['inside_pressure'] = 'none'
    elif kind in ('heating', 'cooling'):
        r[kind + '_equipment']['equipment_type'] = 'unknown'
    elif kind == 'boundary_kind':
        b['boundary_type'] = 'unknown'
    elif kind == 'boundary_order':
        k = rng.randrange(len(bds) - 1)
        bds[k], bds[k + 1] = bds[k + 1], bds[k]
    elif kind == 'boundary_id':
        b['id'] += rng.choice([len(bds), -len(bds)])
    elif kind == 'boundary_twice':
        k = rng.randrange(len(bds) - 1)
        bds[k + 1]['id'] = bds[k]['id']
    elif kind == 'no_such_room':
        b['connected_room_id'] = len(rooms)
    elif kind == 'negative_room':
        b['connected_room_id'] -= len(rooms)
    elif kind in ('no_such_partner', 'negative_partner'):
        if not part:
            return None
        p = rng.choice(part)
        p['rear_surface_boundary_id'] += len(bds) * (1 if kind[0] == 'n' and kind[1] == 'o' else -1)
    elif kind in ('no_such_upstream', 'negative_upstream'):
        r['next_vent'] = [{'upstream_room_id': len(rooms) if kind[1] == 'o' else -1, 'volume': 20.0}]
    elif kind == 'room_name':
        r['name'] = 'unknown'
    elif kind == 'direction':
        lit = [x for x in bds if x.get('is_sun_striked_outside')]
        if not lit:
            return None
        rng.choice(lit)['direction'] = 'unknown'
    return d


def run(scn, ctx):
    d, q = scn['spec'], scn['q']
    if scn.get('schedules') is not None:
        pipe.install(ctx, {}, pipe.random_schedules(scn['schedules']))
    w = year(scn)
    p = ctx.scratch()
    write_year(p, w)
    ctx.state(q, *sorted(set('h:' + r['heating_equipment']['equipment_type'] for r in d['rooms'])),
              *sorted(set('c:' + r['cooling_equipment']['equipment_type'] for r in d['rooms'])),
              *sorted(set(b['boundary_type'] for b in d['boundaries'])), any(r['next_vent'] for r in d['rooms']))
    if q == 'refuse':
        return run_refuse(scn, ctx, p)
    pipe.make_house(json.loads(json.dumps(d)), p, p)
    with open(os.path.join(p, 'mid_data_house.json'), encoding='utf-8') as f:
        house = json.load(f)
    want = spec_house(d)
    bad = differs(want, house)
    ctx.check(bad is None, 'house-file', lambda: 'the house file: ' + bad)
    ctx.log(json.dumps(house, sort_keys=True))
    if q == 'paper':
        ctx.probe('house_file_only')
        ctx.faults('equipment_' + e for r in d['rooms'] for e in (r['heating_equipment']['equipment_type'], r['cooling_equipment']['equipment_type']))
        return
    ctx.faults(['spell_of_heat' if scn['spell'][2] > 0 else 'spell_of_cold'] if scn['spell'][2] else [])
    if scn['schedules'] is not None:
        ctx.faults(['random_schedules'])
    r = scn['run']
    ds, dd = H.core_calc(p, None, **r)
    ctx.ticks += (r['n_d_main'] + r['n_d_run_up']) * 96
    try:
        v = H.View(want, dd)
    except (KeyError, ValueError, TypeError, IndexError) as e:
        ctx.fail('report-shape', 'the detail table lacks or garbles a column: %r' % e)
        return
    ctx.check(v.n == r['n_d_main'] * 96, 'report-shape', 'the detail table has %d rows' % v.n)
    ctx.log(*v.digest())
    s = {k: pipe.read_series(p, k) for k in pipe.SERIES}
    s['theta_o'], s['x_o'] = w['temperature'], w['absolute humidity']
    for sp in want['spaces']:
        sp['equipment']['cooling'].setdefault('max_capacity', 0.0)
    for b in want['boundaries']:
        b['spec'].setdefault('outside_heat_transfer_resistance', 0.0)
    first = None
    for var in variants(want):
        c, n = compare({'house': want, 'run': r}, s, v, var)
        if c is None:
            ctx.probe('rows_compared', n)
            ctx.probe('panels', sum(x['heating_equipment']['equipment_type'] == 'radiative' for x in d['rooms']))
            ctx.probe('ground', sum(b['boundary_type'] == 'ground' for b in d['boundaries']))
            ctx.nontrivial = n > 0
            return
        first = first or c
    ctx.fail('simulated-house:' + first[0].split(':')[1], first[1])


def run_refuse(scn, ctx, p):
    for kind in scn['damage']:
        d = damage(scn['spec'], kind, scn['pick'])
        if d is None:
            continue
        ctx.faults(['specification_' + kind])
        o = ctx.scratch()
        os.link(os.path.join(p, 'weather.csv'), os.path.join(o, 'weather.csv'))
        try:
            pipe.make_house(d, o, o)
            ds, dd = H.core_calc(o, None, n_d_main=1, n_d_run_up=0, n_d_run_up_build=0)
        except rt.Violation:
            raise
        except Exception as e:
            ctx.log(kind, type(e).__name__)
            ctx.probe('refused_' + kind)
            continue
        ctx.fail('not-refused:' + kind, 'a specification with damaged %s was simulated (as some other house)' % kind.replace('_', ' '))
