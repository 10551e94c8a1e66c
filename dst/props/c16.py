"""C16: when disturbances stop the house settles, and to the right steady state."""
import json
import os

import numpy as np

from .. import house as H
from .. import phys as P
from .. import pipe
from .. import ref
from .c12 import variants

LEVEL = 'exploration'
RUNS = (72, 1600)
LIMIT = 150
WALL = (420, 3000)
REAL = P.REAL + ['heat_load_calc.weather and heat_load_calc.initializer (pipeline runs)']
STUB = P.STUB + ['pipeline runs: packaged raw weather and schedules of a private installation']
RULE = ('one run = one house; disturbances for a while, then a constant environment for a bounded number of steps; the final state is '
        'compared with the steady state computed from wall resistances, ventilation and gains (hand-over runs), or with the one '
        'temperature of the environment (isothermal hand-over and whole-pipeline runs; whole-pipeline runs also with two seasons, for the ground); distinct by history hash')
STATES = 'distinct (question, boundary kinds, temperature-difference coefficients present) combinations'
ASSUME = P.ASSUME + ['the number of steps allowed is where the independent model has settled', 'KF1/KF2 houses may settle in either form',
                     'conditioning is off throughout (no demand)']
PROBE = {'layers': [{'name': 'a', 'thermal_resistance': 0.1437, 'thermal_capacity': 134.3},
                    {'name': 'b', 'thermal_resistance': 2.1647, 'thermal_capacity': 1.828},
                    {'name': 'c', 'thermal_resistance': 2.515, 'thermal_capacity': 7.34}], 'rso': 0.11}
PROBE_DAYS = 12


def gen(rng, idx, tier):
    if idx == 0:
        return probe(rng)
    kind = ['steady', 'steady', 'iso', 'pipe'][idx % 4]
    if kind == 'pipe':
        d = pipe.gen_spec(rng)
        if idx // 4 % 2:                       # two seasons: the house settles in the first, the deep ground knows both
            while not any(b['boundary_type'] == 'ground' for b in d['boundaries']):
                d = pipe.gen_spec(rng)
            return {'q': kind, 'spec': d, 'T': round(rng.uniform(-10, 30), 1), 'T2': round(rng.uniform(-10, 30), 1), 'turn': rng.randint(41, 330),
                    'x': round(rng.uniform(1, 4), 1), 'days': rng.choice([30, 40]), 'region': d['common']['region']}
        return {'q': kind, 'spec': d, 'T': round(rng.choice([rng.uniform(-10, 10), rng.uniform(20, 35)]), 1), 'x': round(rng.uniform(1, 8), 1),
                'days': rng.choice([30, 40, 60]), 'region': d['common']['region']}
    D = rng.choice([20, 30, 40] if kind == 'iso' else [30, 45, 60])
    feat = H.features(rng, ground=rng.random() < 0.6 if kind == 'iso' else False, interroom=rng.random() < 0.2 and kind == 'steady',
                      td=rng.random() < 0.7)
    scn = H.gen_scenario(rng, feat, D=D, run={'n_d_main': D, 'n_d_run_up': D, 'n_d_run_up_build': rng.choice([0, D])}, regime=rng.choice(['cold', 'hot', 'mild']),
                         events=0)
    b = scn['base']
    b.update(amp=0.0, drift=0.0, noise=0.0)
    nr, nb = len(b['solar']), len(b['wall'])
    if kind == 'iso':
        b.update(wall=[0.0] * nb, q_gen=[0.0] * nr, occ=[0] * nr, solar=[0.0] * nr, x_gen=[0.0] * nr)
    b['ac'] = ['off'] * nr
    for e in H.gen_events(rng, nr, nb, 2 * H.STEPS, rng.choice([0, 2, 4])):
        # disturbances of the first two days only; they leave the annual mean (deep ground) alone
        if e['key'] in ('qtrs', 'x_o', 'occ', 'q_gen', 'x_gen', 'local_vent', 'theta_sol'):
            scn['events'].append(e)
    scn['q'] = kind
    return scn


def probe(rng):
    """KF4: a legal layer stack whose fixed-root response factors amplify"""
    while True:
        scn = H.gen_scenario(rng, H.features(rng, rooms=1, ground=False, td=False, pairs=False, direct_rf=False, panel=False, interroom=False),
                             D=PROBE_DAYS, run={'n_d_main': PROBE_DAYS, 'n_d_run_up': 0, 'n_d_run_up_build': 0}, events=0)
        if sum(bd['spec']['method'] == 'layers' for bd in scn['house']['boundaries']) >= 2:
            break
    b = scn['base']
    nr, nb = len(b['solar']), len(b['wall'])
    b.update(amp=0.0, drift=0.0, noise=0.0, mean=0.0, wall=[0.0] * nb, q_gen=[0.0] * nr, occ=[0] * nr, solar=[0.0] * nr, x_gen=[0.0] * nr,
             ac=['off'] * nr)
    for bd in scn['house']['boundaries']:
        if bd['spec']['method'] == 'layers':
            bd['spec'].update(layers=[dict(x) for x in PROBE['layers']], outside_heat_transfer_resistance=PROBE['rso'])
            bd['h_c'] = 5.0
            bd['h_i'] = 10.0
    scn['q'] = 'probe'
    return scn


def shrink(scn):
    if scn['q'] == 'pipe':
        for d in pipe.shrink_spec(scn['spec']):
            yield dict(scn, spec=d)
        return
    D = scn['D']
    for s in H.shrink(scn):
        if s['D'] == D:
            s['q'] = scn['q']
            yield s


# ------------------------------------------------------------------------------ independent steady state
def steady(house, s, n, var):
    """temperatures and humidities at rest under the environment of step n, all conditioning off, windows closed"""
    m = ref.Model(house, s, var)
    I, J = m.I, m.J
    R = np.array([ref.spec_resistance(b['spec']) for b in house['boundaries']])
    hi = m.hc + m.hr
    tr = np.full(I, float(s['theta_o'][n]))
    for _ in range(300):
        leak = m.leak(tr, n)
        qh, xh = m.q_hum(tr, n)
        vout = leak + m.vm + s['local_vent'][:, n]
        qs = s['qtrs'][:, n]
        # unknowns: room air, surfaces, environment temperatures
        E = np.zeros((I + 2 * J, I + 2 * J))
        B = np.zeros(I + 2 * J)
        for j in range(J):
            i = m.room[j]
            E[j, I + J + j] = hi[j]                                    # environment seen by the surface
            E[j, i] -= m.hc[j]
            E[j, I:I + J] -= m.hr[j] * m.fm[i]
            B[j] = m.solw[j] * qs[i]
            r = J + j                                                  # (rear - surface) / R + h (env - surface) = 0
            E[r, I + j] = 1.0 / R[j] + hi[j]
            E[r, I + J + j] -= hi[j]
            B[r] = m.ko[j] * s['theta_sol'][j, n] / R[j]
            if m.link[j] is not None:
                k, c = m.link[j]
                # at rest the product's partition form (KF2) acts on the far side only through its first coefficient
                if var['rear'] == 'true' or k == j:
                    E[r, I + J + k] -= c / R[j]
                else:
                    t0 = m.t0[j]
                    E[r, I + J + k] -= c * (1 - t0) / R[j]
                    w = t0 * c / hi[j] / R[j]
                    E[r, m.room[k]] -= w * m.hc[j]
                    E[r, I:I + J] -= w * m.hr[j] * m.fm[m.room[k]]
                    B[r] += w * m.solw[k] * qs[m.room[k]]
        for i in range(I):
            r = 2 * J + i
            cv = ref.C_AIR * ref.RHO
            E[r, i] = cv * vout[i]
            B[r] = cv * vout[i] * s['theta_o'][n] + s['q_gen'][i, n] + qh[i] + 0.5 * qs[i]
            for j in range(J):
                if m.room[j] == i:
                    E[r, i] += m.A[j] * m.hc[j]
                    E[r, I + j] -= m.A[j] * m.hc[j]
            for k in range(I):
                if var['vent'] == 'true':
                    E[r, i] += cv * m.vi[i, k]
                    E[r, k] -= cv * m.vi[i, k]
                else:
                    E[r, k] += cv * m.vi[i, k]
        v = np.linalg.solve(E, B)
        new = v[:I]
        step = np.abs(new - tr).max()
        tr = 0.5 * (tr + new)
        if step < 1e-10:
            break
    X = np.zeros((I, I))
    Y = np.zeros(I)
    for i in range(I):
        X[i, i] += ref.RHO * vout[i]
        Y[i] = ref.RHO * vout[i] * s['x_o'][n] + s['x_gen'][i, n] + xh[i]
        for k in range(I):
            if var['vent'] == 'true':
                X[i, i] += ref.RHO * m.vi[i, k]
            X[i, k] -= ref.RHO * m.vi[i, k]
    try:
        x = np.linalg.solve(X, Y) if abs(np.linalg.det(X / ref.RHO)) > 1e-12 else None
    except np.linalg.LinAlgError:
        x = None
    return {'tr': new, 'tf': new + 0.5 * qs / m.Gf, 'ts': v[I:I + J], 'x': x, 'vout': vout}, m


def settle_model(m, s, run):
    """the independent model over the same steps: how far from rest it is at the end"""
    st = m.initial()
    S = H.STEPS
    st = m.ground_run_up(st, -run['n_d_run_up'] * S, -run['n_d_run_up_build'] * S)
    o = None
    for n in range(-run['n_d_run_up_build'] * S, run['n_d_main'] * S):
        st, o = m.step(st, n)
    return o


def run(scn, ctx):
    if scn['q'] == 'pipe':
        return run_pipe(scn, ctx)
    ctx.faults(['disturbances_stop'])
    if scn['q'] == 'probe':
        return run_probe(scn, ctx)
    s, ds, dd, v = H.observe(scn, ctx)
    h = scn['house']
    n = v.n - 1
    ctx.check(bool((v.mode == ref.STOP_CLOSE).all()), 'conditioned', 'a room without demand is operated')
    first = None
    for var in variants(h):
        rest, m = steady(h, s, n, var)
        o = settle_model(m, s, scn['run'])
        bad = None
        for name, got, want, mod, unit in (('room', v.tr[:, n], rest['tr'], o['tr'], 1.0), ('furniture', v.tf[:, n], rest['tf'], o['tf'], 1.0),
                                           ('surface', v.ts[:, n], rest['ts'], o['ts'], 1.0)):
            allow = 0.02 * unit + 1.5 * np.abs(mod - want)
            d = np.abs(got - want)
            k = int(np.argmax(d - allow))
            if d[k] > allow[k] and bad is None:
                bad = '%s %d is at %.6g after %d constant days, the steady state is %.6g (allowance %.3g)' % (
                    name, k, got[k], scn['run']['n_d_main'] - 2, want[k], allow[k])
        if rest['x'] is not None and bad is None:
            d, allow = np.abs(v.x[:, n] - rest['x']), 1e-6 + 0.01 * np.abs(rest['x']) + 1.5 * np.abs(o['x'] - rest['x'])
            k = int(np.argmax(d - allow))
            if d[k] > allow[k]:
                bad = 'humidity of room %d is %.6g after %d constant days, the steady state is %.6g' % (k, v.x[k, n], scn['run']['n_d_main'] - 2, rest['x'][k])
        if bad is None:
            first = None
            ctx.probe('settled_rooms', int((np.abs(o['tr'] - rest['tr']) < 0.02).sum()))
            ctx.probe('slow_rooms', int((np.abs(o['tr'] - rest['tr']) >= 0.02).sum()))
            break
        first = first or bad
    ctx.check(first is None, 'steady-state', first)
    if scn['q'] == 'iso':
        T = scn['base']['mean']
        last = np.abs(v.ts[:, -1] - T).max()
        ctx.check(bool(last <= 0.02 + 1.5 * np.abs(o['ts'] - T).max()), 'isothermal', 'after %d days at %.2f degrees a surface is %.3g K off' % (scn['D'], T, last))
    ctx.state(scn['q'], *sorted(set(b['name'].rstrip('0123456789') for b in h['boundaries'])), *sorted(set(b['k_outside'] for b in h['boundaries'])))


def run_probe(scn, ctx):
    ctx.probe('probe_non_contractive')
    ok = [ref.contractive(ref.spec_rf(b['spec'])) for b in scn['house']['boundaries'] if b['spec']['method'] == 'layers']
    key = None if all(ok) else 'amplifying-layers'
    try:
        s, ds, dd, v = H.observe(scn, ctx)
    except (ValueError, ArithmeticError) as e:
        # the trajectory left the range in which air properties exist
        ctx.fail('diverges', 'a room in a constant environment at 0 degrees leaves the range of air properties within %d days: %s' % (PROBE_DAYS, e), key=key)
        return
    day = np.abs(v.tr).reshape(v.I, -1, H.STEPS).max(axis=(0, 2))
    if day[-1] > 15.0 and day[-1] > 1.2 * day[1]:
        ctx.fail('diverges', 'a room in a constant environment moves away from it: %.3g K after 2 days, %.3g K after %d' % (day[1], day[-1], len(day)), key=key)


def run_pipe(scn, ctx):
    """one temperature (or two seasons) through make_weather, make_house and the load calculation"""
    d, T = scn['spec'], scn['T']
    raw = np.tile(np.array([T, 0.0, 0.0, 0.0, scn['x']]), (8760, 1))
    if 'T2' in scn:
        raw[scn['turn'] * 24:, 0] = scn['T2']
    cal = pipe.packaged_schedules()['calendar']
    pipe.install(ctx, {scn['region']: raw}, pipe.blank_schedules(cal))
    ctx.faults(['change_of_season' if 'T2' in scn else 'isothermal_pipeline'])
    p = ctx.scratch()
    pipe.make_weather(scn['region'], p)
    pipe.make_house(json.loads(json.dumps(d)), p, p)
    days = scn['days']
    ds, dd = H.core_calc(p, None, n_d_main=days, n_d_run_up=2, n_d_run_up_build=0)
    ctx.ticks += (days + 2) * 96
    with open(os.path.join(p, 'mid_data_house.json')) as f:
        house = json.load(f)
    for b, o in zip(d['boundaries'], house['boundaries']):
        o['spec'].setdefault('outside_heat_transfer_resistance', 0.0)
    v = H.View(house, dd)
    s = {k: pipe.read_series(p, k)[:, :4] for k in pipe.SERIES}
    w = pipe.read_weather(p)[1]
    s['theta_o'], s['x_o'] = w['temperature'], w['absolute humidity']
    want = pipe.expect_weather(raw, '15m')[:, 0]
    ctx.check(bool(np.all(np.abs(w['temperature'] - want) < 1e-9)), 'isothermal-weather', 'the weather file is not at the given temperature throughout')
    for c in house['spaces']:
        c['equipment']['cooling']['max_capacity'] = 0.0
    # settle bound: the independent model of the house file over the same steps
    full = {k: (np.repeat(a[:, :1], 35040, axis=1) if a.ndim == 2 else a) for k, a in s.items()}
    for k in ('q_gen', 'x_gen', 'occ', 'ac', 'qtrs', 'local_vent'):
        ctx.check(not full[k].any(), 'isothermal-series', '%s is not zero without gains' % pipe.SERIES[k])
    for j, b in enumerate(d['boundaries']):
        full['theta_sol'][j] = 0.0 if b['boundary_type'] == 'internal' else want.mean() if b['boundary_type'] == 'ground' else want
        if b['boundary_type'] == 'ground':
            have = pipe.read_series(p, 'theta_sol')[j]
            ctx.check(bool(np.all(np.abs(have - want.mean()) < 1e-6)), 'deep-ground', 'boundary %d: the deep ground is at %.6g..%.6g, the mean of the year is %.6g' % (
                j, have.min(), have.max(), want.mean()))
    h = want_house(d, house)
    n = days * 96 - 1
    first = None
    for var in variants(h):
        if 'T2' in scn:
            rest, m = steady(h, full, n, var)
        else:                                   # whatever the house: everything is at T
            rest, m = {k: np.full(a.shape, T) for k, a in (('tr', v.tr[:, n]), ('tf', v.tf[:, n]), ('ts', v.ts[:, n]))}, ref.Model(h, full, var)
        o = settle_model(m, full, {'n_d_run_up': 2, 'n_d_run_up_build': 0, 'n_d_main': days})
        bad = None
        for name, got, k in (('room', v.tr[:, n], 'tr'), ('surface', v.ts[:, n], 'ts'), ('furniture', v.tf[:, n], 'tf')):
            off, allow = np.abs(got - rest[k]), 0.02 + 1.5 * np.abs(o[k] - rest[k])
            j = int(np.argmax(off - allow))
            if off[j] > allow[j] and bad is None:
                bad = '%s %d is at %.5g after %d days at %.1f degrees%s, at rest it is at %.5g (allowance %.3g K); boundary kinds: %s' % (
                    name, j, got[j], days, T, ' (%.1f from day %d on)' % (scn['T2'], scn['turn']) if 'T2' in scn else '', rest[k][j], allow[j],
                    sorted(set((b['boundary_type'], b.get('temp_dif_coef')) for b in d['boundaries']), key=str))
        if bad is None:
            first = None
            ctx.probe('pipeline_settled_rooms', int((np.abs(o['tr'] - rest['tr']) < 0.02).sum()))
            ctx.probe('pipeline_slow_rooms', int((np.abs(o['tr'] - rest['tr']) >= 0.02).sum()))
            break
        first = first or bad
    ctx.check(first is None, 'seasonal-pipeline' if 'T2' in scn else 'isothermal-pipeline', first)
    ctx.log(*v.digest())
    ctx.state('pipe', 'T2' in scn, *sorted(set('%s:%s' % (b['boundary_type'], b.get('temp_dif_coef', '')) for b in d['boundaries'])))


def want_house(d, house):
    """the house file with the weights and layers the specification asks for (so that the bound does not come from the stage under test)"""
    h = json.loads(json.dumps(house))
    for b, o in zip(d['boundaries'], h['boundaries']):
        kind = b['boundary_type']
        td = {'internal': 0.0, 'ground': 1.0}.get(kind, b.get('temp_dif_coef'))
        o['area'], o['h_c'], o['k_outside'], o['connected_space_id'] = b['area'], b['h_c'], td, b['connected_room_id']
        o['k_inside'] = {'id': b['rear_surface_boundary_id'], 'coef': 1.0} if kind == 'internal' else {'id': o['id'], 'coef': 1.0 - td} if td < 1 else None
        o['is_ground'] = 'true' if kind == 'ground' else 'false'
        o['spec'] = {'method': 'layers' if 'layers' in b else 'u_value', 'boundary_type': kind}
        for k in ('layers', 'u_value', 'inside_heat_transfer_resistance', 'outside_heat_transfer_resistance'):
            if k in b:
                o['spec'][k] = b[k]
    return h
