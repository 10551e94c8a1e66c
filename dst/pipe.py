"""The whole pipeline under simulation: a private installation of the package whose packaged raw data
(weather of the regions, schedules) the seed decides, and generated house specifications for it.

The installation is a copy of the working tree's package in the run's scratch directory, so that raw data reaches the
code through its own reading code, however that is written."""
import copy
import csv
import importlib
import io
import json
import math
import os
import shutil
import sys

import numpy as np
import pandas as pd

from . import house as H
from . import ref
from . import rt

RAWDIR = ('weather', 'expanded_amedas')
ROOMS = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room')
DAYTYPES = ('平日', '休日外', '休日在')
QUANT = ('number_of_people', 'heat_generation_appliances', 'heat_generation_lighting', 'heat_generation_cooking',
         'vapor_generation_cooking', 'local_vent_amount', 'is_temp_limit_set')
YEAR = 35040
SERIES = {'local_vent': 'mid_data_local_vent.csv', 'q_gen': 'mid_data_heat_generation.csv', 'x_gen': 'mid_data_moisture_generation.csv',
          'occ': 'mid_data_occupants.csv', 'ac': 'mid_data_ac_demand.csv', 'qtrs': 'mid_data_q_trs_sol.csv',
          'theta_sol': 'mid_data_theta_o_sol.csv'}
MAKE_HOUSE_FILES = ['mid_data_house.json'] + sorted(SERIES.values())
WEATHER_COLS = ('temperature', 'normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation', 'absolute humidity')


# ------------------------------------------------------------------------------ private installation
def raw_file(root, region):
    d = os.path.join(root, rt.TARGET, *RAWDIR)
    return os.path.join(d, [f for f in sorted(os.listdir(d)) if f.startswith('%02d_' % region)][0])


def install(ctx, weather=None, schedules=None):
    """copy the package into the run, replace raw data, and import from there.
    weather: {region: array [8760, 5]} in the column order of the raw files"""
    site = os.path.join(ctx.root, 'site')
    shutil.copytree(os.path.join(rt.REPO, rt.TARGET), os.path.join(site, rt.TARGET),
                    ignore=shutil.ignore_patterns('__pycache__', '*.docx', '*.xlsx', '*.ipynb'))
    for region, a in (weather or {}).items():
        p = raw_file(site, region)
        with open(p, encoding='utf-8') as f:
            lines = f.read().splitlines()
        rows = []
        for k in range(8760):
            w = lines[2 + k].split(',')
            w[2:7] = [repr(float(x)) for x in a[k]]
            rows.append(','.join(w))
        with open(p, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines[:2] + rows) + '\n')
    if schedules is not None:
        with open(os.path.join(site, rt.TARGET, 'initializer', 'schedules.json'), 'w', encoding='utf-8') as f:
            json.dump(schedules, f, ensure_ascii=False)
    use(site)
    return site


def use(site):
    for m in [m for m in sys.modules if m == rt.TARGET or m.startswith(rt.TARGET + '.')]:
        del sys.modules[m]
    if sys.path[0] != site:
        sys.path.insert(0, site)
    importlib.invalidate_caches()
    rt.PRODUCT_ROOTS.append(os.path.realpath(os.path.join(site, rt.TARGET)))


def packaged_schedules():
    with open(os.path.join(rt.REPO, rt.TARGET, 'initializer', 'schedules.json'), encoding='utf-8') as f:
        return json.load(f)


def make_weather(region, out=None, interval='15m'):
    from heat_load_calc.weather import weather
    with H.Quiet():
        if out is None:
            return weather.make_weather(region=region, interval=interval)
        return weather.make_weather(region=region, output_data_dir=out, csv_output=True, interval=interval)


def make_house(d, inp, out):
    from heat_load_calc.initializer import initializer
    with H.Quiet():
        return initializer.make_house(d=d, input_data_dir=inp, output_data_dir=out)


def read_series(d, key):
    with open(os.path.join(d, SERIES[key])) as f:
        return np.array([[float(x) for x in row] for row in csv.reader(f)]).T


def read_weather(d):
    with open(os.path.join(d, 'weather.csv'), encoding='utf-8') as f:
        rows = list(csv.reader(f))
    head = rows[0][1:]
    a = np.array([[float(x) for x in r[1:]] for r in rows[1:]]).T
    return [r[0] for r in rows[1:]], {h: a[k] for k, h in enumerate(head)}


# ------------------------------------------------------------------------------ generated specifications
DIRS = ('s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se')


def gen_spec(rng, rooms=None, next_vents=False, td=True, ground=True):
    k = (rooms or rng.choice([1, 2, 2, 2, 3, 3, 4])) - 1
    types = ['main_occupant_room'] + rng.sample(['other_occupant_room', 'non_occupant_room'] + ['underfloor'] * (k == 3), k)
    rng.shuffle(types)
    names = [t if t in ROOMS else rng.choice(ROOMS) for t in types]       # the schedules go by the name
    n = len(names)
    bds = []

    def common(i, area, kind, floor=False, absorb=False, ri=None):
        return {'id': 0, 'name': '%s%d' % (kind, len(bds)), 'connected_room_id': i, 'boundary_type': kind, 'area': round(area, 3),
                'is_floor': floor, 'is_solar_absorbed_inside': absorb, 'inside_heat_transfer_resistance': ri or rng.choice([0.11, 0.09, 0.15, round(rng.uniform(0.05, 0.2), 3)]),
                'h_c': rng.choice([2.5, 0.7, 5.0, round(rng.uniform(0.7, 5.0), 2)]), 'solar_shading_part': {'existence': False}}

    def external(b, top=False, floor=False):
        sun = False if floor else rng.random() < 0.75
        b.update(is_sun_striked_outside=sun, temp_dif_coef=1.0,
                 outside_heat_transfer_resistance=rng.choice([0.04, 0.11, round(rng.uniform(0.02, 0.2), 3)]),
                 outside_emissivity=rng.choice([0.9, 0.7, round(rng.uniform(0.3, 1.0), 2)]))
        if td and rng.random() < (0.05 if sun else 0.7):
            b['temp_dif_coef'] = rng.choice([0.7, 0.25, 0.15, 0.05, 0.0])
        if sun or rng.random() < 0.5:
            b['direction'] = 'top' if top else 'bottom' if floor else rng.choice(DIRS)
        return b

    for i in range(n):
        base = rng.uniform(7.0, 20.0)
        area = lambda: base * rng.uniform(0.7, 1.3)
        if ground and rng.random() < 0.5:
            b = common(i, area(), 'ground', rng.random() < 0.8, rng.random() < 0.8)
            b['layers'] = H._layers(rng, rng.randint(1, 2), True)
        else:
            b = external(common(i, area(), 'external_general_part', True, rng.random() < 0.8), floor=True)
            b['outside_solar_absorption'] = 0.8
            b['layers'] = H._layers(rng)
        bds.append(b)
        if rng.random() < 0.4:
            b = external(common(i, area() * 0.5, 'external_general_part', True, True), floor=True)
            b['outside_solar_absorption'] = 0.8
            b['layers'] = H._layers(rng)
            bds.append(b)
        for k in range(rng.randint(2, 4)):
            b = external(common(i, area(), 'external_general_part', False, rng.random() < 0.3), top=k == 0)
            b['outside_solar_absorption'] = rng.choice([0.8, 0.5, round(rng.uniform(0.0, 1.0), 2)])
            b['layers'] = H._layers(rng)
            bds.append(b)
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = external(common(i, base * rng.uniform(0.15, 0.5), 'external_transparent_part', ri=rng.choice([0.11, 0.11, round(rng.uniform(0.06, 0.15), 3)])))
            b.update(u_value=round(rng.uniform(1.2, 6.0), 3), eta_value=round(rng.uniform(0.3, 0.85), 3),
                     incident_angle_characteristics=rng.choice(['single', 'multiple']))
            if b['is_sun_striked_outside'] and rng.random() < 0.5:
                b['solar_shading_part'] = {'existence': True, 'input_method': 'simple', 'depth': round(rng.uniform(0.2, 1.5), 2),
                                           'd_h': round(rng.uniform(0.8, 2.0), 2), 'd_e': round(rng.uniform(0.05, 0.6), 2)}
            bds.append(b)
        if rng.random() < 0.4:
            b = external(common(i, base * rng.uniform(0.1, 0.25), 'external_opaque_part', ri=rng.choice([0.11, 0.11, round(rng.uniform(0.06, 0.15), 3)])))
            b.update(u_value=round(rng.uniform(1.0, 5.0), 3), outside_solar_absorption=rng.choice([0.8, round(rng.uniform(0.0, 1.0), 2)]))
            bds.append(b)
    for i in range(n):
        mine = [b for b in bds if b['connected_room_id'] == i]
        if not any(b['is_floor'] for b in mine):
            mine[0]['is_floor'] = True
    links = []
    for i in range(n):
        for k in range(i + 1, n):
            if rng.random() < 0.7:
                lay, a, rso = H._layers(rng), area(), rng.choice([0.11, 0.15, 0.09, round(rng.uniform(0.02, 0.2), 3)])
                p = common(i, a, 'internal', False, rng.random() < 0.5)
                p.update(layers=lay, outside_heat_transfer_resistance=rso, next_room_type=names[k])
                bds.append(p)
                q = common(k, a, 'internal', rng.random() < 0.3, rng.random() < 0.5)
                q.update(layers=[dict(x) for x in reversed(lay)], outside_heat_transfer_resistance=rso, next_room_type=names[i])
                bds.append(q)
                links.append((p, q))
    for i in range(n):
        mine = [b for b in bds if b['connected_room_id'] == i]
        for _ in range(80):
            tot = sum(b['area'] for b in mine)
            big = max(mine, key=lambda b: b['area'])
            if big['area'] <= 0.33 * tot and ref.geometry_ok([b['area'] for b in mine]):
                break
            small = min(mine, key=lambda b: b['area'])
            big['area'] = round(big['area'] * 0.93, 3)
            small['area'] = round(small['area'] * 1.08, 3)
        if not any(b['is_solar_absorbed_inside'] for b in mine):
            mine[0]['is_solar_absorbed_inside'] = True
    rng.shuffle(bds)
    for k, b in enumerate(bds):
        b['id'] = k
    if rng.random() < 0.3:                     # names are labels only
        for b in bds:
            b['name'] = b['boundary_type']
    for p, q in links:
        p['rear_surface_boundary_id'], q['rear_surface_boundary_id'] = q['id'], p['id']
    rooms_out = []
    floor = [round(rng.choice([rng.uniform(8.0, 45.0), rng.choice([10.0, 20.0, 30.0])]), 2) for _ in names]
    if rng.random() < 0.4:                     # the household at and around its limits
        total = rng.choice([30.0, 60.0, 90.0, 120.0, 29.99, 30.3, 118.5, 119.99, 120.01, rng.uniform(120, 150), rng.uniform(20, 30), rng.uniform(90, 120)])
        floor = [round(x * total / sum(floor), 2) for x in floor]
        floor[-1] = round(total - sum(floor[:-1]), 2)
    for i, name in enumerate(names):
        fa = floor[i]
        vol = round(fa * rng.uniform(2.1, 3.2), 2)
        qmax = round(rng.uniform(2000.0, 6000.0), 1)
        conv = {'equipment_type': 'convective', 'convective': {'q_min': 500.0, 'q_max': qmax, 'v_min': 10.0, 'v_max': 18.0}}
        heat = copy.deepcopy(conv)
        if rng.random() < 0.3:
            heat = {'equipment_type': 'radiative', 'radiative': {'max_capacity': round(rng.uniform(50, 150), 1),
                                                                 'area': round(fa * rng.uniform(0.3, 1.4), 2)}}
        nv = []
        if next_vents and n > 1 and rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 3])):
                nv.append({'upstream_room_id': rng.choice([k for k in range(n) if k != i]), 'volume': round(rng.uniform(5, 30), 1)})
        rooms_out.append({'id': i, 'name': name, 'room_type': types[i], 'floor_area': fa, 'volume': vol,
                          'vent': round(rng.choice([0.0, rng.uniform(10, 90)]), 1), 'cooling_equipment': conv, 'heating_equipment': heat,
                          'next_vent': nv, 'c_value': 2.0, 'natural_vent_time': rng.choice([5.0, 0.0, round(rng.uniform(1.0, 20.0), 1), round(rng.uniform(1.0, 20.0), 1)])})
    return {'common': {'region': rng.randint(1, 8)}, 'building': {
        'story': rng.choice([1, 2]), 'c_value': rng.choice([0.0] + [round(rng.uniform(0.2, 6.0), 2)] * 9),
        'inside_pressure': rng.choice(['balanced', 'positive', 'negative'])}, 'rooms': rooms_out, 'boundaries': bds}


def random_schedules(seed):
    """every slot of every schedule distinct, every calendar day drawn: a misplaced value cannot hide"""
    rs = np.random.RandomState(seed)
    p = rs.permutation(365)
    cal = [DAYTYPES[k % 3] for k in range(365)]
    cal = [cal[k] for k in p]
    top = {'number_of_people': 4, 'heat_generation_appliances': 800, 'heat_generation_lighting': 8, 'heat_generation_cooking': 200,
           'vapor_generation_cooking': 50, 'local_vent_amount': 120, 'is_temp_limit_set': 1}
    ds = {}
    for n in '1234':
        ds[n] = {}
        for r in ROOMS:
            ds[n][r] = {}
            for t in DAYTYPES:
                ds[n][r][t] = {q: [round(float(x), 3) for x in rs.uniform(0, top[q], 96)] for q in QUANT}
    return {'calendar': cal, 'daily_schedule': ds}


def blank_schedules(calendar, value=0.0):
    return {'calendar': list(calendar), 'daily_schedule': {n: {r: {t: {q: [value] * 96 for q in QUANT} for t in DAYTYPES} for r in ROOMS}
                                                           for n in '1234'}}


# ------------------------------------------------------------------------------ what the stages have to produce
def expect_weather(raw, interval):
    """linear interpolation between the hours; raw row k is the instant k+1 h, the year wraps"""
    m = {'1h': 1, '30m': 2, '15m': 4}[interval]
    at = np.vstack([raw[-1:], raw])                     # instant 0 h is that of 24 h on 31 December
    out = np.empty((8760 * m, raw.shape[1]))
    for k in range(m):
        f = k / m
        out[k::m] = at[:-1] * (1.0 - f) + at[1:] * f
    return out


PLACE = {1: (43.82, 143.91), 2: (43.21, 141.79), 3: (39.70, 141.17), 4: (36.66, 138.20), 5: (36.55, 139.87), 6: (34.66, 133.92),
         7: (31.94, 131.42), 8: (26.21, 127.685)}           # Kitami ... Naha, degrees north and east


def expect_sun(region, interval):
    """unit vector (south, west, up) to the sun at every step: low-precision almanac for 0 h UT (09:00 in Japan) of each day of 1989"""
    m = {'1h': 1, '30m': 2, '15m': 4}[interval]
    n = 8760 * m
    lat, lon = PLACE[region] if isinstance(region, int) else region
    day, clock = np.arange(n) // (24 * m), (np.arange(n) % (24 * m)) / m
    t = 2447527.5 + day - 2451545.0
    g, q = np.radians(357.529 + 0.98560028 * t), np.radians(280.459 + 0.98564736 * t)
    lam = q + np.radians(1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.radians(23.439 - 0.00000036 * t)
    dec, ra = np.arcsin(np.sin(eps) * np.sin(lam)), np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))
    eot = (q - ra + np.pi) % (2 * np.pi) - np.pi
    om, la = np.radians((clock - 12.0) * 15.0 + lon - 135.0) + eot, math.radians(lat)
    return np.array([np.cos(dec) * np.cos(om) * np.sin(la) - np.sin(dec) * np.cos(la), np.cos(dec) * np.sin(om),
                     np.sin(la) * np.sin(dec) + np.cos(la) * np.cos(dec) * np.cos(om)])


def household(d):
    a = sum(r['floor_area'] for r in d['rooms'])
    return min(4.0, max(1.0, a / 30.0))


def expect_schedule(sch, d, quantity, room):
    n = household(d)
    lo = min(3, int(math.floor(n)))
    hi, f = lo + 1, n - lo
    table = {}
    for t in DAYTYPES:
        a = np.array(sch['daily_schedule'][str(lo)][room][t][quantity], float)
        b = np.array(sch['daily_schedule'][str(hi)][room][t][quantity], float)
        table[t] = (a * (1.0 - f) + b * f, np.minimum(a, b), np.maximum(a, b))
    return tuple(np.concatenate([table[t][k] for t in sch['calendar']]) for k in range(3))


ORIENT = {'s': (0.0, 90.0), 'sw': (45.0, 90.0), 'w': (90.0, 90.0), 'nw': (135.0, 90.0), 'n': (180.0, 90.0), 'ne': (-135.0, 90.0),
          'e': (-90.0, 90.0), 'se': (-45.0, 90.0), 'top': (0.0, 0.0), 'bottom': (0.0, 180.0)}


def sky_view(direction):
    return (1.0 + math.cos(math.radians(ORIENT[direction][1]))) / 2.0


def incidence(direction, h, a):
    al, be = (math.radians(x) for x in ORIENT[direction])
    return np.maximum(0.0, np.sin(h) * math.cos(be) + np.cos(h) * math.sin(be) * np.cos(a - al))


def expect_theta_sol(b, w):
    """equivalent outdoor temperature behind one boundary, from the weather columns"""
    t = w['temperature']
    if b['boundary_type'] == 'ground':
        return np.full(len(t), t.mean())
    if b['boundary_type'] == 'internal':
        return None
    if not b['is_sun_striked_outside']:
        return t
    h, a = w['sun altitude'], w['sun azimuth']
    fs = sky_view(b['direction'])
    rn = fs * w['outward radiation']
    if b['boundary_type'] == 'external_transparent_part':
        i = 0.0
    else:
        dn, sky = w['normal direct solar radiation'], w['horizontal sky solar radiation']
        hor = np.where(h > 0, np.sin(h), 0.0) * dn + sky
        i = b['outside_solar_absorption'] * (dn * incidence(b['direction'], h, a) + fs * sky + (1 - fs) * 0.1 * hor)
    return t + (i - b['outside_emissivity'] * rn) * b['outside_heat_transfer_resistance']


def shrink_spec(d):
    """specifications with one boundary (or partition) less"""
    n = len(d['boundaries'])
    for j in range(n):
        b = d['boundaries'][j]
        drop = {j, b.get('rear_surface_boundary_id', j)}
        i = b['connected_room_id']
        rest = [x for x in d['boundaries'] if x['id'] not in drop]
        if not all(len([x for x in rest if x['connected_room_id'] == k]) >= 4 and
                   ref.geometry_ok([x['area'] for x in rest if x['connected_room_id'] == k]) and
                   any(x['is_floor'] for x in rest if x['connected_room_id'] == k) and
                   any(not x['is_floor'] for x in rest if x['connected_room_id'] == k) and
                   any(x['is_solar_absorbed_inside'] for x in rest if x['connected_room_id'] == k) for k in range(len(d['rooms']))):
            continue
        c = copy.deepcopy(d)
        c['boundaries'] = [x for x in c['boundaries'] if x['id'] not in drop]
        pos = {x['id']: k for k, x in enumerate(c['boundaries'])}
        for x in c['boundaries']:
            x['id'] = pos[x['id']]
            if 'rear_surface_boundary_id' in x:
                x['rear_surface_boundary_id'] = pos[x['rear_surface_boundary_id']]
        yield c
