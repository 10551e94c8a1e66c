"""C21: the sun reaches every surface of the house by geometry, at every step of the year."""
import json
import math
import os

import numpy as np

from .. import pipe
from .c17 import transmitted, close, where

LEVEL = 'exploration'
RUNS = (90, 3000)
LIMIT = 90
REAL = ['heat_load_calc.weather (make_weather, solar position)', 'heat_load_calc.initializer (make_house: incidence on surfaces, sunshades, glass, '
        'equivalent outdoor temperature)', 'weather.csv and mid_data_*.csv on a real scratch file system']
STUB = ['the sky: beam, diffuse and night radiation (and in a third of the runs the track of the sun) written into weather.csv by the seeded simulator']
RULE = ('one run = one generated house under one seeded sky for a year (the real year, bursts of beam at seeded instants under the real sun, or a sun that '
        'stands anywhere at any time), turned as a whole by a seeded angle and taken through make_house again; distinct by the hash of all series')
STATES = 'distinct (region, sky, quarter turns, directions of windows, shaded directions, glass) combinations'
ASSUME = ['steps at which the sun is below the horizon are judged only if the beam is zero', 'direct sunlight through windows without sunshades is '
          'accepted in both readings (fully shaded as shipped, or unshaded)', 'the almanac is the low-precision one, 0.05 degrees',
          'ground reflectance 0.1, glass polynomials of the published method']

TURN = ('s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se')


def gen(rng, idx, tier):
    d = pipe.gen_spec(rng, next_vents=rng.random() < 0.2)
    for b in d['boundaries']:
        if b['boundary_type'] == 'external_transparent_part' and b['is_sun_striked_outside']:
            if rng.random() < 0.15:
                b['direction'] = 'top'
                b['solar_shading_part'] = {'existence': False}
            elif rng.random() < 0.5:
                b['solar_shading_part'] = {'existence': True, 'input_method': 'simple', 'depth': round(rng.choice([0.01, 10 ** rng.uniform(-1.5, 0.7)]), 3),
                                           'd_h': round(10 ** rng.uniform(-0.7, 0.6), 3), 'd_e': round(rng.choice([0.0, 10 ** rng.uniform(-2, 0.3)]), 3)}
    kind = ('real', 'bursts', 'free')[idx % 3]
    ev = []
    if kind == 'bursts':
        for _ in range(rng.choice([1, 3, 10, 40])):
            ev.append([rng.choice([rng.randrange(pipe.YEAR), 96 * rng.randrange(365) + rng.randint(16, 76)]), rng.choice([1, 1, 2, 8]), rng.randrange(3),
                       round(rng.uniform(5.0, 900.0), 1)])
    return {'spec': d, 'sky': kind, 'events': ev, 'rseed': rng.randrange(10 ** 6), 'turn': rng.randrange(8),
            'place': [round(rng.uniform(-60, 65), 3), round(rng.uniform(100, 170), 3), rng.choice(['15m', '30m', '1h'])]}


def shrink(scn):
    ev = scn['events']
    if len(ev) > 1:
        yield dict(scn, events=ev[:len(ev) // 2])
        yield dict(scn, events=ev[len(ev) // 2:])
    if scn['turn']:
        yield dict(scn, turn=0)
    for d in pipe.shrink_spec(scn['spec']):
        yield dict(scn, spec=d)


def sky(scn, w):
    """the weather columns of this run, from those of the region"""
    rs = np.random.RandomState(scn['rseed'])
    w = {k: v.copy() for k, v in w.items()}
    n = pipe.YEAR
    if scn['sky'] == 'bursts':
        for c in ('normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation'):
            w[c] = np.zeros(n)
        for at, ln, c, v in scn['events']:
            w[('normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation')[c]][at:at + ln] += v
    elif scn['sky'] == 'free':
        w['sun altitude'] = np.arcsin(rs.uniform(-0.3, 1.0, n))
        w['sun azimuth'] = rs.uniform(-math.pi, math.pi, n)
        w['normal direct solar radiation'] = np.where(w['sun altitude'] > 0, rs.uniform(0, 900, n), 0.0)
        w['horizontal sky solar radiation'] = rs.uniform(0, 400, n)
        w['outward radiation'] = rs.uniform(0, 120, n)
        w['temperature'] = np.round(rs.uniform(-10, 35, n), 2)
    return w


def save(d, stamps, w):
    cols = list(w)
    a = np.column_stack([w[c] for c in cols])
    with open(os.path.join(d, 'weather.csv'), 'w', encoding='utf-8') as f:
        f.write(',' + ','.join(cols) + '\n')
        for t, r in zip(stamps, a.tolist()):
            f.write(t + ',' + ','.join(map(repr, r)) + '\n')


def judge(ctx, d, w, data):
    s = {k: pipe.read_series(data, k) for k in ('theta_sol', 'qtrs')}
    ok = (w['sun altitude'] > 0) | (w['normal direct solar radiation'] == 0)
    for j, b in enumerate(d['boundaries']):
        e = pipe.expect_theta_sol(b, w)
        if e is not None:
            x = s['theta_sol'][j]
            ctx.check(close(x[ok], e[ok], 1e-9, 1e-6), 'surface:' + b['boundary_type'],
                      lambda: 'temperature the sun and sky make outside boundary %d (%s, %s): %s'
                      % (j, b['boundary_type'], b.get('direction'), where(np.where(ok, x, 0.0), np.where(ok, e, 0.0), 1e-9, 1e-6)))
    cand = [transmitted(d, w, i) for i in range(len(d['rooms']))]
    same = lambda v: all(close(s['qtrs'][i][ok], cand[i][v][ok], 1e-6, 1e-6) for i in range(len(cand)))
    if not same(0) and not same(1):
        i = [i for i in range(len(cand)) if not close(s['qtrs'][i][ok], cand[i][0][ok], 1e-6, 1e-6)][0]
        ctx.check(False, 'through-windows', lambda: 'sunlight that enters room %d: %s'
                  % (i, where(np.where(ok, s['qtrs'][i], 0.0), np.where(ok, cand[i][0], 0.0), 1e-6, 1e-6)))
    ctx.log(s['theta_sol'], s['qtrs'])
    return s, ok


def run(scn, ctx):
    d = json.loads(json.dumps(scn['spec']))
    region = d['common']['region']
    ctx.faults(['burst_' + ('beam', 'sky', 'night')[e[2]] for e in scn['events']])
    ctx.faults({'free': ['free_sun'], 'bursts': [], 'real': ['real_year']}[scn['sky']])
    dd = ctx.scratch('data')
    # the sun over the region of the house and over a seeded place
    df = pipe.make_weather(region, dd)
    stamps, w = pipe.read_weather(dd)
    sun(ctx, w['sun altitude'], w['sun azimuth'], pipe.expect_sun(region, '15m'), 'region %d' % region)
    try:
        from heat_load_calc.weather import solar_position
        f = solar_position.calc_solar_position
    except (ImportError, AttributeError):
        f = None
    if f is not None:
        lat, lon, iv = scn['place']
        h, a = f(math.radians(lat), math.radians(lon), iv)
        sun(ctx, h, a, pipe.expect_sun((lat, lon), iv), 'latitude %s longitude %s at %s' % (lat, lon, iv))
    # the sky of this run
    w = sky(scn, w)
    save(dd, stamps, w)
    pipe.make_house(json.loads(json.dumps(d)), dd, dd)
    s, ok = judge(ctx, d, w, dd)
    ctx.ticks += pipe.YEAR
    # house and sky turned together: nothing changes
    t = scn['turn']
    if t:
        ctx.faults(['turned'])
        e = json.loads(json.dumps(d))
        for b in e['boundaries']:
            if b.get('direction') in TURN:
                b['direction'] = TURN[(TURN.index(b['direction']) + t) % 8]
        v = dict(w)
        v['sun azimuth'] = (w['sun azimuth'] + t * math.pi / 4 + math.pi) % (2 * math.pi) - math.pi
        d2 = ctx.scratch('turned')
        save(d2, stamps, v)
        pipe.make_house(json.loads(json.dumps(e)), d2, d2)
        for k in ('theta_sol', 'qtrs'):
            x = pipe.read_series(d2, k)
            for r in range(len(x)):
                ctx.check(close(x[r][ok], s[k][r][ok], 1e-6, 1e-4), 'turned', lambda: 'turned by %d degrees with the sun, %s of %d: %s'
                          % (45 * t, k, r, where(np.where(ok, x[r], 0.0), np.where(ok, s[k][r], 0.0), 1e-6, 1e-4)))
        ctx.ticks += pipe.YEAR
    win = [b for b in d['boundaries'] if b['boundary_type'] == 'external_transparent_part' and b['is_sun_striked_outside']]
    ctx.probe('windows', len(win))
    ctx.probe('shaded_windows', sum(b['solar_shading_part']['existence'] for b in win))
    ctx.probe('skylights', sum(b['direction'] == 'top' for b in win))
    ctx.state(region, scn['sky'], t, '-'.join(sorted(set(b['direction'] for b in win))),
              '-'.join(sorted(set(b['direction'] for b in win if b['solar_shading_part']['existence']))), len(set(b['incident_angle_characteristics'] for b in win)))


def sun(ctx, h, a, want, what):
    h, a = np.asarray(h, float), np.asarray(a, float)
    ctx.check(h.shape == a.shape == (want.shape[1],), 'sun', lambda: 'the sun of %s has %s positions' % (what, h.shape))
    got = np.array([np.cos(h) * np.cos(a), np.cos(h) * np.sin(a), np.sin(h)])
    off = np.degrees(np.arccos(np.clip((got * want).sum(axis=0), -1.0, 1.0)))
    bad = ((h > 0) | (want[2] > 0.002)) & ~(off <= 0.05)
    ctx.check(not bad.any(), 'sun', lambda: 'the sun over %s is %.2f degrees away from where it stands at step %d (%d steps in all)'
              % (what, off[np.argmax(bad)], np.argmax(bad), bad.sum()))
