"""Common parts of the properties decided on the recorded history of one simulated building."""
import copy

import numpy as np

from . import house as H
from . import ref
from .rt import Violation

REAL = ['heat_load_calc.core (calc, pre_calc_parameters, sequence, sequence_ground, next_condition, ot_target*, infiltration, '
        'occupants, heat_exchanger, shape_factor, conditions, log)', 'heat_load_calc.initializer.response_factor',
        'heat_load_calc.external.psychrometrics', 'numpy/pandas', 'file system (scratch directory)']
STUB = ['the building\'s environment: weather, sunlight, occupants, demand and gains come from the seeded simulator '
        '(hand-over files written by it instead of by the house initialisation)']
ASSUME = ['layer stacks whose fixed-root response factors are contractive (DESIGN.md, KF4)', '15-minute steps (n_step_hourly=4)',
          'equipment dictionaries carry the keys core reads unconditionally', 'furniture capacities and conductances are positive']
RULE = ('one run = one generated house (1-4 rooms, shuffled boundaries, optional partitions, ground, panels, inter-room air) driven '
        'for 1-3 simulated days (some: months, one: a whole year) by a seeded environment with injected disturbances; non-trivial when the run finished and at least '
        'one tick was checked; distinct by the hash of the recorded history')
STATES = 'distinct (vector of room modes, set of conditioned rooms, panel at capacity, coil wet) combinations at a tick'


def shrink(scn):
    return H.shrink(scn)


LIMIT = 240


def year(rng, days=365, **feat):
    """a whole year of two rooms: long histories, every month, every season"""
    f = H.features(rng)
    f.update(rooms=2, interroom=False, pairs=False, odd_pairs=False)
    f.update(feat)
    scn = H.gen_scenario(rng, f, D=days, run={'n_d_main': days, 'n_d_run_up': 0, 'n_d_run_up_build': 0}, events=rng.choice([30, 60, 90]))
    scn['base'].update(mean=round(rng.uniform(10.0, 18.0), 2), drift=-round(rng.uniform(10.0, 16.0), 2), amp=round(rng.uniform(3.0, 7.0), 2), noise=0.3)
    scn['base']['ac'] = ['on', rng.choice(['on', 'day', 'night'])]
    for e in scn['events']:                     # some of them last for weeks
        if rng.random() < 0.3:
            e['n1'] = min(days * H.STEPS, e['n0'] + rng.randrange(96, 96 * 20))
    return scn


def long(rng, idx, tier):
    """a few long histories among the short ones"""
    if idx == 3 or (tier == 'thorough' and idx % 500 == 3):
        return year(rng)
    if tier == 'thorough' and idx % 50 == 9:
        return year(rng, rng.randint(8, 70))


def gen(rng, idx, tier, force=None, calm=0.08, **kw):
    if 'run' not in kw:
        scn = long(rng, idx, tier)
        if scn:
            return scn
    feat = H.features(rng)
    if idx % 6 == 0:
        feat.update(interroom=True, pairs=True, rooms=rng.choice([2, 3]))
    if idx % 6 == 1:
        feat.update(interroom=False, panel=True)
    if idx % 6 == 2:
        feat.update(interroom=False, pairs=False, odd_pairs=False)
    if idx % 6 == 4:                           # panels in neighbouring rooms that lean on each other
        feat.update(panel=True, pairs=True, interroom=True, rooms=rng.choice([2, 3, 4]), panels_all=True)
    if idx % 12 == 10:
        feat.update(rooms=4)
    feat.update(force or {})
    if tier == 'thorough':
        kw.setdefault('D', rng.choice([1, 2, 3, 4]))
    scn = H.gen_scenario(rng, feat, **kw)
    if idx % 12 == 10:
        tighten(scn, rng)
    if rng.random() < calm:                    # nothing changes: values meet their neighbours and their limits exactly
        scn['base'].update(amp=0.0, drift=0.0, noise=0.0)
        if rng.random() < 0.6:
            scn['base'].update({k: [0.0] * len(scn['base'][k]) for k in ('solar', 'wall', 'occ')})
        scn['events'] = scn['events'][:rng.choice([0, 0, 1])]
    return scn


def tighten(scn, rng):
    """panel capacities of three rooms such that, at the first step all of them heat (or cool), one panel at its limit pushes the
    next one over its own, and that one the third"""
    m = ref.Model(scn['house'], H.expand(scn), {'vent': 'asis', 'rear': 'asis'})
    m.cap_h, m.cap_c = [1e9] * m.I, [1e9] * m.I
    up, N = scn['run']['n_d_run_up_build'] * H.STEPS, len(m.s['theta_o'])
    if max(up, scn['run']['n_d_run_up'] * H.STEPS) > N:
        return False
    start = m.ground_run_up(m.initial(), -scn['run']['n_d_run_up'] * H.STEPS, -up)
    for _ in range(10):                        # the limits change what came before, so more than once
        st = start
        for n in range(-up, min(60 - up, N)):
            ns, o = m.step(st, n)
            on = [i for i in range(m.I) if o['ctrl'][i][0] in ('rad', 'cap')]
            if len(on) >= 3:
                break
            st = ns
        else:
            return False
        if o['rounds'] >= 3:
            return True
        kind, caps = ('heating', m.cap_h) if o['lr'][on[0]] > 0 else ('cooling', m.cap_c)
        keep = list(caps)
        found = _ladder(m, st, n, on, kind, caps, rng)
        if not found:
            caps[:] = keep
            continue
        for i in range(m.I):
            caps[i] = found.get(i, 1e9)
            if i in found:
                e = scn['house']['spaces'][i]['equipment'][kind]
                e['radiative']['max_capacity'] = float(caps[i])
                if kind == 'cooling':
                    e['max_capacity'] = float(caps[i])
    return False


def _ladder(m, st, n, on, kind, caps, rng):
    sign = 1.0 if kind == 'heating' else -1.0

    def load(fixed):
        for i in range(m.I):
            caps[i] = fixed.get(i, 1e9)
        return sign * m.step(st, n)[1]['lr']
    on = list(on)
    rng.shuffle(on)
    for a in on:
        l0 = load({})
        f = {a: l0[a] * rng.uniform(0.1, 0.7)}
        l1 = load(f)
        for b in on:
            gap = l1[b] - l0[b]
            if b == a or gap < 1e-5 * l1[b] or l0[b] <= 0:
                continue
            f2 = dict(f)
            f2[b] = l0[b] + gap * rng.uniform(0.1, 0.5)
            l2 = load(f2)
            for c in on:
                top = max(l0[c], l1[c])
                if c in (a, b) or l2[c] - top < 2e-6 * l2[c] or top <= 0:
                    continue
                f2[c] = top + (l2[c] - top) * rng.uniform(0.3, 0.7)
                return f2
    return None


def prev(a, first):
    """values of the previous row; ``first`` before the first one"""
    out = np.empty_like(a)
    out[:, 1:] = a[:, :-1]
    out[:, 0] = first
    return out


X0 = ref.x_of_pv(ref.p_vs(20.0) * 0.4)


def coverage(ctx, v, house):
    """probes and distinct states reached"""
    rad = [(bool(s['equipment']['heating']['radiative']['installed']), bool(s['equipment']['cooling']['radiative']['installed']))
           for s in house['spaces']]
    on = (np.abs(v.lc) > 1e-6) | (np.abs(v.lr) > 1e-6)
    wet = v.lcl < -1e-9
    for m, name in ((1, 'cooling'), (2, 'heating'), (3, 'windows_open'), (4, 'closed')):
        ctx.probe('tick_mode_' + name, (v.mode == m).sum())
    ctx.probe('tick_conditioned', on.sum())
    ctx.probe('tick_panel_used', (np.abs(v.lr) > 1e-6).sum())
    ctx.probe('tick_panel_at_capacity_plus_air', ((np.abs(v.lr) > 1e-6) & (np.abs(v.lc) > 1e-6)).sum())
    ctx.probe('tick_coil_wet', wet.sum())
    ctx.probe('tick_coil_dry_while_cooling', ((v.lc < -1e-3) & ~wet).sum())
    ctx.probe('tick_partial_demand', ((v.ac > 0) & (v.ac < 1)).sum())
    ctx.probe('tick_leak_zero', (v.leak == 0).sum())
    ctx.probe('mode_change', (v.mode[:, 1:] != v.mode[:, :-1]).sum())
    ctx.probe('tick_hum_capped', (v.qhum > 0).sum())
    for n in range(v.n):
        ctx.sig.append(''.join('%d%d%d%d' % (v.mode[i, n], on[i, n], (abs(v.lr[i, n]) > 1e-6) and (abs(v.lc[i, n]) > 1e-6), wet[i, n])
                               for i in range(v.I)) + '|%s' % (''.join('%d%d' % r for r in rad)))
    ctx.sig = sorted(set(ctx.sig))


def worst(res, scale, tol):
    """index of the worst relative residual, or None"""
    bad = ~(np.abs(res) <= tol * scale)
    if not bad.any():
        return None
    first = np.argwhere(bad)
    return tuple(first[np.argmin(first[:, -1])])


class Geometry:
    """house constants as arrays, from the house file and the independent model only"""
    def __init__(self, house, series):
        self.m = ref.Model(house, series)
        self.__dict__.update({k: getattr(self.m, k) for k in (
            'I', 'J', 'room', 'A', 'hc', 'hr', 'fm', 'fh', 'a0', 't0', 'a1', 't1', 'rr', 'ko', 'link', 'ground', 'flr', 'absorbs', 'V',
            'beta', 'vm', 'vi', 'vn', 'Cf', 'Gf', 'Cx', 'Gx', 'rad_h', 'rad_c', 'cap_h', 'cap_c', 'inf', 'solw', 'theta_ave')})
        self.P = np.zeros((self.I, self.J))
        self.P[self.room, np.arange(self.J)] = 1.0

    def leak(self, tr_prev, to):
        w = self.V / self.V.sum()
        d = np.abs(w @ tr_prev - to)
        return np.maximum(self.inf[0] * np.sqrt(d) - self.inf[1], 0.0)[None, :] * self.V[:, None] / 3600.0

    def human(self, tr_prev, occ):
        per = np.minimum(63.0 - 4.0 * (tr_prev - 24.0), 119.0)
        return per * occ, (119.0 - per) / ref.L_WTR * occ


def histories(g, v, s):
    """conduction memory of every wall from the observed fluxes and environment temperatures:
    yields ta, tt (J x 12) *before* tick n and the recorded rear temperature used at n"""
    init = g.m.initial()
    ta, tt = init['ta'], init['tt']
    q, te = init['q'], init['tei']
    for n in range(v.n):
        rear = g.ko * s['theta_sol'][:, n]
        for j, l in enumerate(g.link):
            if l is not None:
                rear[j] += l[1] * te[l[0]]
        yield n, ta, tt, q, te, rear
        ta = g.a1 * q[:, None] + g.rr * ta
        tt = g.t1 * rear[:, None] + g.rr * tt
        q, te = v.qall[:, n], v.te[:, n]
