"""C17: every event keeps its time, room, boundary and quantity on its way through the pipeline."""
import json
import math
import os

import numpy as np
import pandas as pd

from .. import house as H
from .. import pipe
from ..rt import Violation

LEVEL = 'exploration'
RUNS = (48, 1500)
LIMIT = 120
REAL = ['heat_load_calc.weather (make_weather, interpolation, solar position)', 'heat_load_calc.initializer (make_house, schedule_loader, '
        'outside_eqv_temp, transmission_solar_radiation, solar_shading, ...)', 'heat_load_calc.core (short run on the produced files)',
        'hand-over files on a real scratch file system']
STUB = ['the packaged raw data (regional weather, schedules, calendar) of a private installation, written by the seeded simulator']
RULE = ('one run = one generated house specification and one seeded raw weather year and schedule set (random in every slot, or constant '
        'with marker events), taken through make_weather, make_house and a short load calculation; distinct by the hash of all series')
STATES = 'distinct (region, second interval, raw data kind, household-size bracket, boundary kinds present) combinations'
ASSUME = ['residents number is floor area / 30 m2 limited to 1..4', 'direct sunlight through windows without shading devices is compared '
          'with both readings (fully shaded as shipped, or unshaded): formula questions are C21']


def gen(rng, idx, tier):
    d = pipe.gen_spec(rng, next_vents=rng.random() < 0.4)
    kind = ['random', 'spikes', 'real'][idx % 3] if idx % 6 != 5 else 'random'
    ev = []
    if kind != 'random':
        for _ in range(rng.choice([1, 3, 6, 10])):
            ev.append({'col': rng.randrange(5), 'hour': rng.choice([rng.randrange(8760), 8759, 0, 1, 8758, 24 * rng.randrange(365) + 23,
                                                                    rng.randrange(48)]), 'len': rng.choice([1, 1, 2, 5]),
                       'v': round(rng.uniform(1.0, 9.0), 2)})
        if rng.random() < 0.6:                          # one mark on every quantity at the turn of the year
            ev.append({'col': rng.randrange(5), 'hour': 8759, 'len': 1, 'v': 5.0})
    sev = []
    skind = rng.choice(['random', 'random', 'spikes', 'real'])
    if skind == 'spikes':
        for _ in range(rng.choice([2, 5, 9])):
            sev.append({'np': rng.randint(1, 4), 'room': rng.randrange(3), 'type': rng.randrange(3), 'q': rng.randrange(7),
                        'slot': rng.choice([rng.randrange(96), 0, 95]), 'v': round(rng.uniform(0.1, 1.0), 3)})
    return {'spec': d, 'raw': kind, 'rseed': rng.randrange(10 ** 6), 'events': ev, 'sched': skind, 'sevents': sev,
            'direct': rng.random() < 0.5, 'other': rng.choice(['1h', '30m']), 'main': rng.choice([1, 2]), 'up': rng.choice([0, 1])}


def shrink(scn):
    for k in ('events', 'sevents'):
        ev = scn[k]
        if len(ev) > 1:
            yield dict(scn, **{k: ev[:len(ev) // 2]})
            yield dict(scn, **{k: ev[len(ev) // 2:]})
        elif ev:
            yield dict(scn, **{k: []})
    if scn['raw'] == 'real':
        yield dict(scn, raw='spikes')
    if scn['main'] > 1:
        yield dict(scn, main=1)
    if scn['up']:
        yield dict(scn, up=0)
    for d in pipe.shrink_spec(scn['spec']):
        yield dict(scn, spec=d)


def raw_weather(scn):
    region = scn['spec']['common']['region']
    rs = np.random.RandomState(scn['rseed'])
    if scn['raw'] == 'random':
        lim = [(-10, 35), (0, 800), (0, 400), (0, 120), (1, 20)] if scn['rseed'] % 2 else [(-42, 47), (0, 1350), (0, 900), (0, 200), (0, 32)]
        a = np.column_stack([np.round(rs.uniform(lo, hi, 8760), 1) for lo, hi in lim])
    elif scn['raw'] == 'spikes':
        a = np.tile(np.array([12.0, 0.0, 0.0, 40.0, 6.0]), (8760, 1))
    else:
        from .. import rt
        a = np.genfromtxt(pipe.raw_file(rt.REPO, region), delimiter=',', skip_header=2, usecols=(2, 3, 4, 5, 6), encoding='utf-8')
    for e in scn['events']:
        a[e['hour']:e['hour'] + e['len'], e['col']] += e['v'] * (1, 60, 40, 5, 0.5)[e['col']]
    if not scn['direct']:
        a[:, 1] = 0.0
    return a


def schedules(scn):
    if scn['sched'] == 'random':
        return pipe.random_schedules(scn['rseed'] + 1)
    s = pipe.packaged_schedules()
    if scn['sched'] == 'spikes':
        s = pipe.blank_schedules(s['calendar'])
        for e in scn['sevents']:
            s['daily_schedule'][str(e['np'])][pipe.ROOMS[e['room']]][pipe.DAYTYPES[e['type']]][pipe.QUANT[e['q']]][e['slot']] = e['v']
    return s


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def where(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    k = np.argwhere(~(np.abs(a - b) <= atol + rtol * np.abs(b)))
    k0 = tuple(k[0])
    return 'step %d (%d steps in all): %.9g instead of %.9g' % (k0[-1], len(k), a[k0], b[k0])


def run(scn, ctx):
    d = scn['spec']
    region = d['common']['region']
    raw, sch = raw_weather(scn), schedules(scn)
    others = {r: np.tile(np.array([-40.0 - r, 0.0, 0.0, 0.0, 1.0]), (8760, 1)) for r in range(1, 9) if r != region}
    pipe.install(ctx, {**others, region: raw}, sch)
    ctx.faults(['weather_event_' + ('temperature', 'direct', 'sky', 'night', 'humidity')[e['col']] for e in scn['events']])
    ctx.faults(['schedule_event_' + pipe.QUANT[e['q']] for e in scn['sevents']])
    if scn['raw'] == 'random':
        ctx.faults(['random_year'])
    if scn['sched'] == 'random':
        ctx.faults(['random_schedules'])
    dd = ctx.scratch('data')

    # ---------------------------------------------------------------- stage 1: weather
    frames = {}
    for iv, out in (('15m', dd), (scn['other'], None)):
        frames[iv] = df = pipe.make_weather(region, out, iv)
        m = {'15m': 4, '30m': 2, '1h': 1}[iv]
        want = pipe.expect_weather(raw, iv)
        ctx.check(len(df) == 8760 * m, 'weather-rows', '%d rows at %s' % (len(df), iv))
        ix = pd.DatetimeIndex(df.index)
        y0 = pd.Timestamp(ix[0].year, 1, 1)
        ctx.check((((ix - y0) / pd.Timedelta(minutes=60 // m)).values == np.arange(len(ix))).all(), 'weather-calendar',
                  'rows at %s are not stamped from 1 January 00:00 on' % iv)
        for k, (col, ulp) in enumerate(zip(pipe.WEATHER_COLS, (1e-3, 0.0, 0.0, 0.0, 1e-6))):
            w = want[:, k] / (1000.0 if k == 4 else 1.0)
            got = np.asarray(df[col].values, float)
            tol = 0.5000001 * ulp + 1e-9
            ctx.check(close(got, w, 1e-9, tol), 'weather-time:' + col.replace(' ', '-'),
                      lambda: '%s at %s, %s' % (col, iv, where(got, w, 1e-9, tol)))
        h, az = df['sun altitude'].values, df['sun azimuth'].values
        got = np.array([np.cos(h) * np.cos(az), np.cos(h) * np.sin(az), np.sin(h)])
        off = np.degrees(np.arccos(np.clip((got * pipe.expect_sun(region, iv)).sum(axis=0), -1.0, 1.0)))
        up = (h > 0) & ~(off <= 0.05)
        ctx.check(not up.any(), 'sun-time', lambda: 'the sun of step %d at %s is %.2f degrees away from where it stands then (%d steps in all)'
                  % (np.argmax(up), iv, off[np.argmax(up)], up.sum()))
    a, b = frames['15m'], frames[scn['other']]
    m = {'30m': 2, '1h': 4}[scn['other']]
    for col in a.columns:
        x, y = np.asarray(a[col].values, float)[::m], np.asarray(b[col].values, float)
        ctx.check(close(x, y, 1e-9, 1e-9), 'weather-intervals', lambda: '%s at 15m and %s differ at common instants, %s' % (col, scn['other'], where(x, y)))
    stamps, w = pipe.read_weather(dd)
    ctx.check([pd.Timestamp(t) for t in stamps] == list(a.index), 'weather-file', 'weather.csv is stamped otherwise than the returned frame')
    for col in a.columns:
        ctx.check(col in w and close(w[col], a[col].values, 1e-12, 1e-12), 'weather-file', 'weather.csv and the returned frame differ in ' + col)
    ctx.log(*[w[c] for c in a.columns])

    # ---------------------------------------------------------------- stage 2: house
    pipe.make_house(json.loads(json.dumps(d)), dd, dd)
    s = {k: pipe.read_series(dd, k) for k in pipe.SERIES}
    with open(os.path.join(dd, 'mid_data_house.json')) as f:
        house = json.load(f)
    check_house(ctx, d, house)
    n = len(d['rooms'])
    for k, a in s.items():
        ctx.check(a.shape == (len(d['boundaries']) if k == 'theta_sol' else n, pipe.YEAR), 'series-shape', '%s has shape %s' % (k, a.shape))
        ctx.log(k, a)
    hp = pipe.household(d)
    for i, r in enumerate(d['rooms']):
        e = {q: pipe.expect_schedule(sch, d, q, r['name']) for q in pipe.QUANT}
        fa = r['floor_area']
        heat = e['heat_generation_appliances'][0] + e['heat_generation_lighting'][0] * fa
        ckg, vap = e['heat_generation_cooking'][0], e['vapor_generation_cooking'][0]
        for key, q, unit in (('occ', 'number_of_people', 1.0), ('ac', 'is_temp_limit_set', 1.0), ('local_vent', 'local_vent_amount', 3600.0)):
            w0, lo, hi = (x / unit for x in e[q])
            ctx.check(bool(np.all((s[key][i] >= lo - 1e-9) & (s[key][i] <= hi + 1e-9))), 'household-range',
                      lambda: '%s of room %d leaves the range of its neighbouring schedules (household of %.3f)' % (q, i, hp))
            ctx.check(close(s[key][i], w0), 'schedule-time:' + q, lambda: '%s of room %d (%s), %s' % (q, i, r['name'], where(s[key][i], w0)))
        right = close(s['q_gen'][i], heat + ckg, 1e-9, 1e-7) and close(s['x_gen'][i], vap / 3.6e6, 1e-9, 1e-13)
        swapped = close(s['q_gen'][i], heat + vap, 1e-9, 1e-7) and close(s['x_gen'][i], ckg / 3.6e6, 1e-9, 1e-13)
        if not right and swapped:
            ctx.fail('cooking-swap', 'cooking heat and cooking vapour of room %d are exchanged' % i, key='cooking-swap')
        elif not right:
            ctx.check(close(s['q_gen'][i], heat + ckg, 1e-9, 1e-7) or close(s['q_gen'][i], heat + vap, 1e-9, 1e-7), 'schedule-time:internal-heat',
                      lambda: 'internal heat of room %d, %s' % (i, where(s['q_gen'][i], heat + ckg, 1e-9, 1e-7)))
            ctx.check(False, 'schedule-time:internal-vapour', lambda: 'internal vapour of room %d, %s' % (i, where(s['x_gen'][i], vap / 3.6e6, 1e-9, 1e-13)))
    ok = (w['sun altitude'] > 0) | (w['normal direct solar radiation'] == 0)
    for j, b in enumerate(d['boundaries']):
        e = pipe.expect_theta_sol(b, w)
        if e is not None:
            ctx.check(close(s['theta_sol'][j][ok], e[ok], 1e-9, 1e-6), 'boundary-time:' + b['boundary_type'],
                      lambda: 'rear temperature of boundary %d (%s), %s' % (j, b['name'], where(s['theta_sol'][j], e, 1e-9, 1e-6)))
    cand = [transmitted(d, w, i) for i in range(n)]
    for v in (0, 1):
        if all(close(s['qtrs'][i][ok], cand[i][v][ok], 1e-6, 1e-6) for i in range(n)):
            break
    else:
        i = [i for i in range(n) if not close(s['qtrs'][i][ok], cand[i][0][ok], 1e-6, 1e-6)][0]
        ctx.check(False, 'sunlight-time', lambda: 'transmitted sunlight of room %d, %s' % (i, where(s['qtrs'][i][ok], cand[i][0][ok], 1e-6, 1e-6)))
    ctx.probe('windows', sum(b['boundary_type'] == 'external_transparent_part' for b in d['boundaries']))
    ctx.probe('shaded_windows', sum(b['solar_shading_part']['existence'] for b in d['boundaries']))
    ctx.probe('ground', sum(b['boundary_type'] == 'ground' for b in d['boundaries']))

    # ---------------------------------------------------------------- stage 3: load calculation
    ds, df = H.core_calc(dd, None, n_d_main=scn['main'], n_d_run_up=scn['up'], n_d_run_up_build=scn['up'])
    ctx.ticks += (scn['main'] + scn['up']) * 96
    N = scn['main'] * 96
    ctx.check(len(df) == N, 'rows', '%d rows' % len(df))
    g = lambda c: np.array(df[c].values, float)
    for c, x in (('out_temp', w['temperature']), ('out_abs_humid', w['absolute humidity'])):
        ctx.check(close(g(c), x[:N], 1e-9, 1e-9), 'core-time:' + c, lambda: '%s, %s' % (c, where(g(c), x[:N])))
    for i in range(n):
        for c, key in (('occupancy', 'ac'), ('q_sol_t', 'qtrs'), ('q_s_except_hum', 'q_gen'), ('q_l_except_hum', 'x_gen')):
            x = s[key][i][:N]
            ctx.check(close(g('rm%d_%s' % (i, c)), x, 1e-9, 1e-12), 'core-time:' + c, lambda: '%s of room %d, %s' % (c, i, where(g('rm%d_%s' % (i, c)), x, 1e-9, 1e-12)))
        # human heat per person is at most 119 W and needs people in that room at that step
        q, occ = g('rm%d_q_hum_s' % i), s['occ'][i][:N]
        ctx.check(bool(np.all((np.abs(q) > 0) == (occ > 0))), 'core-time:q_hum_s', lambda: 'human heat of room %d does not follow its occupants' % i)
    ctx.state(region, scn['other'], scn['raw'], scn['sched'], int(hp), hp == int(hp), *sorted(set(b['boundary_type'] for b in d['boundaries'])))


def transmitted(d, w, i):
    """sunlight transmitted into room i under both readings of an unshaded window (see ASSUME)"""
    h, a = w['sun altitude'], w['sun azimuth']
    dn, sky = w['normal direct solar radiation'], w['horizontal sky solar radiation']
    hor = np.where(h > 0, np.sin(h), 0.0) * dn + sky
    out = [np.zeros(len(h)), np.zeros(len(h))]
    for b in d['boundaries']:
        if b['boundary_type'] != 'external_transparent_part' or b['connected_room_id'] != i or not b['is_sun_striked_outside']:
            continue
        c = incid = pipe.incidence(b['direction'], h, a)
        single = 2.552 * c + 1.364 * c ** 2 - 11.388 * c ** 3 + 13.617 * c ** 4 - 5.146 * c ** 5
        if b['incident_angle_characteristics'] == 'single':
            tau, cd = single, 0.900
        else:
            refl = 1.0 - 5.189 * c + 12.392 * c ** 2 - 16.593 * c ** 3 + 11.851 * c ** 4 - 3.461 * c ** 5
            with np.errstate(all='ignore'):
                tau, cd = np.where(1.0 - refl ** 2 != 0, single ** 2 / (1.0 - refl ** 2), 0.0), 0.832
        fs = pipe.sky_view(b['direction'])
        sh = b['solar_shading_part']
        if sh['existence']:
            z, yw, y1 = sh['depth'], sh['d_h'], sh['d_e']
            fsky = ((y1 + yw + math.hypot(y1, z)) - (y1 + math.hypot(y1 + yw, z))) / (2.0 * yw)
            with np.errstate(all='ignore'):
                al = math.radians(pipe.ORIENT[b['direction']][0])
                f = np.clip((z * np.tan(h) / np.cos(a - al) - y1) / yw, 0.0, 1.0)
            fd = (np.where(h > 0, f, 0.0),) * 2
        else:
            fsky, fd = 0.0, (1.0, 0.0)
        dif = cd * ((1 - fsky) * fs * sky + (1 - fs) * 0.1 * hor)
        for v in (0, 1):
            direct = (1 - fd[v]) * tau * dn * incid
            out[v] = out[v] + b['area'] * b['eta_value'] * (np.nan_to_num(direct) + dif)
    return out


def check_house(ctx, d, house):
    """the house file describes the specified rooms and boundaries"""
    eq = lambda a, b: abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    rooms, sp = d['rooms'], house['spaces']
    ctx.check(len(sp) == len(rooms) and len(house['boundaries']) == len(d['boundaries']), 'house-count', 'rooms or boundaries are missing')
    for i, (r, s) in enumerate(zip(rooms, sp)):
        nv = [0.0] * len(rooms)
        for v in r['next_vent']:
            nv[v['upstream_room_id']] += v['volume'] / 3600.0
        ve = s['ventilation']
        for name, got, want in [('volume', s['volume'], r['volume']), ('mechanical ventilation', ve['mechanical'], r['vent'] / 3600.0),
                                ('natural ventilation', ve['natural'], r['volume'] * r['natural_vent_time'] / 3600.0)] + \
                [('air from room %d' % k, ve['next_spaces'][k], nv[k]) for k in range(len(rooms))]:
            ctx.check(eq(got, want), 'house-room', '%s of room %d: %s instead of %s' % (name, i, got, want))
        he = r['heating_equipment']['equipment_type']
        ctx.check(bool(s['equipment']['heating']['radiative']['installed']) == (he == 'radiative') and
                  bool(s['equipment']['heating']['convective']['installed']) == (he == 'convective'), 'house-room', 'heating equipment of room %d' % i)
        c = r['cooling_equipment']['convective']
        got = s['equipment']['cooling']['convective']
        ctx.check(all(eq(got[k], c[k]) for k in ('q_min', 'q_max', 'v_min', 'v_max')), 'house-room', 'cooling equipment of room %d' % i)
        if he == 'radiative':
            h = r['heating_equipment']['radiative']
            ctx.check(eq(s['equipment']['heating']['radiative']['max_capacity'], h['max_capacity'] * h['area']), 'house-room',
                      'panel capacity of room %d' % i)
    for j, (b, o) in enumerate(zip(d['boundaries'], house['boundaries'])):
        kind = b['boundary_type']
        td = {'internal': 0.0, 'ground': 1.0}.get(kind, b.get('temp_dif_coef'))
        ctx.check(o['connected_space_id'] == b['connected_room_id'] and o['id'] == j, 'house-boundary', 'room of boundary %d' % j)
        for name, got, want in (('area', o['area'], b['area']), ('convection', o['h_c'], b['h_c']), ('outdoor share', o['k_outside'], td)):
            ctx.check(eq(got, want), 'house-boundary', '%s of boundary %d: %s instead of %s' % (name, j, got, want))
        link = (b['rear_surface_boundary_id'], 1.0) if kind == 'internal' else (j, 1.0 - td) if td < 1.0 else None
        k = o['k_inside']
        got = None if k is None or k['coef'] == 0 else (k['id'], k['coef'])
        ctx.check((got is None) == (link is None) and (link is None or got[0] == link[0] and eq(got[1], link[1])), 'house-boundary',
                  'boundary %d is linked to %s instead of %s' % (j, got, link))
        ctx.check((o['is_ground'] == 'true') == (kind == 'ground'), 'house-boundary', 'ground flag of boundary %d' % j)
        ctx.check((o['is_solar_absorbed'] == 'True') == b['is_solar_absorbed_inside'], 'house-boundary', 'sunlight flag of boundary %d' % j)
        sp2 = o['spec']
        if 'layers' in b:
            ctx.check(len(sp2['layers']) == len(b['layers']) and all(
                eq(x[k], y[k]) for x, y in zip(sp2['layers'], b['layers']) for k in ('thermal_resistance', 'thermal_capacity')), 'house-boundary',
                'layers of boundary %d' % j)
            if kind != 'ground':
                ctx.check(eq(sp2['outside_heat_transfer_resistance'], b['outside_heat_transfer_resistance']), 'house-boundary',
                          'outside resistance of boundary %d' % j)
        else:
            ctx.check(eq(sp2['u_value'], b['u_value']), 'house-boundary', 'u value of boundary %d' % j)
    for i, r in enumerate(rooms):
        mine = [j for j, b in enumerate(d['boundaries']) if b['connected_room_id'] == i]
        ctx.check(eq(sum(house['boundaries'][j]['f_mrt_hum'] for j in mine), 1.0), 'house-boundary', 'form factors of the person in room %d' % i)
        fl = sum(house['boundaries'][j]['flr'] for j in mine)
        ctx.check(eq(fl, 1.0 if r['heating_equipment']['equipment_type'] == 'radiative' else 0.0), 'house-boundary',
                  'panel heat shares of room %d add up to %s' % (i, fl))
