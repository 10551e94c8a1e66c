"""C12: conditioning delivers the target, only in its mode, and respects panel capacity.

Each tick is replayed from the *observed* previous state: the independent model solves the room balances with the loads as
unknowns, which gives the temperature without conditioning, the temperature demanded, and the loads that reach it."""
import itertools
import json
import os

import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref
from ..rt import VERIF

LEVEL = 'exploration'
RUNS = (220, 5000)
REAL, STUB, RULE, STATES = P.REAL, P.STUB, P.RULE, P.STATES
ASSUME = P.ASSUME + ['decisions within 1e-6 of the target or of the panel capacity are not judged',
                     'for houses touched by KF1/KF2 the natural temperature follows the form (known or correct) the run is in']
shrink = P.shrink
LIMIT = P.LIMIT
KEY = 'one-shot-coupling'


def gen(rng, idx, tier):
    if idx == 0:                               # the recorded history of the known finding
        with open(os.path.join(VERIF, 'dst', 'corpus', 'c12-one-shot-coupling.json')) as f:
            return json.load(f)
    return P.gen(rng, idx, tier, force={'panel': rng.random() < 0.65, 'interroom': rng.random() < 0.15},
                 regime=rng.choice(['cold', 'cold', 'hot', 'hot', 'swing']))


def states(g, v, s):
    trp, mrtp, xp, mp = P.prev(v.tr, 15.0), P.prev(v.mrt, 15.0), P.prev(v.x, P.X0), P.prev(v.mode, ref.STOP_CLOSE)
    tfp, xfp = P.prev(v.tf, 15.0), P.prev(v.xf, P.X0)
    for n, ta, tt, q, te, rear in P.histories(g, v, s):
        yield n, {'mode': mp[:, n], 'tr': trp[:, n], 'mrt': mrtp[:, n], 'x': xp[:, n], 'tf': tfp[:, n], 'xf': xfp[:, n],
                  'tei': te, 'q': q, 'ta': ta, 'tt': tt}


def variants(house):
    inter = any(any(sp['ventilation']['next_spaces']) for sp in house['spaces'])
    link = any(b['k_inside'] is not None and b['k_inside']['id'] != j for j, b in enumerate(house['boundaries']))
    return [{'vent': a, 'rear': b} for a, b in itertools.product(['asis', 'true'] if inter else ['asis'],
                                                                 ['asis', 'true'] if link else ['asis'])]


def judge(g, v, s, var, house, ctx):
    """(first complaint or None, list of known one-shot cases)"""
    m = ref.Model(house, s, var)
    known = []
    edge = 0
    for n, st in states(g, v, s):
        ns, o = m.step(st, n, mode=v.mode[:, n])
        if o['margins'] and min(o['margins']) < 1e-6:
            edge += 1
            continue
        sc = 100.0 + np.abs(o['lc']).max() + np.abs(o['lr']).max()
        for i in range(g.I):
            mode, d, nat, tg = v.mode[i, n], s['ac'][i, n], o['natural'][i], o['target'][i]
            where = 'room %d, row %d (mode %d, demand %g, without conditioning %.5f, target %.5f)' % (i, n, mode, d, nat, tg)
            c = o['ctrl'][i]
            if c[0] == 'off':
                if abs(v.lc[i, n]) > 1e-5 or abs(v.lr[i, n]) > 1e-5:
                    return ('unrequested-load', '%s receives %.4f W by air and %.4f W by panel' % (where, v.lc[i, n], v.lr[i, n])), known, edge
            else:
                want = d * tg + (1 - d) * nat
                if abs(v.ot[i, n] - want) > 1e-6 * (1 + abs(want)):
                    return ('target-missed', '%s reaches %.6f instead of %.6f' % (where, v.ot[i, n], want)), known, edge
                if abs(v.lr[i, n] - o['lr'][i]) > 1e-6 * sc or abs(v.lc[i, n] - o['lc'][i]) > 1e-6 * sc:
                    return ('load', '%s receives %.4f W by air and %.4f W by panel; %.4f W and %.4f W reach the target'
                            % (where, v.lc[i, n], v.lr[i, n], o['lc'][i], o['lr'][i])), known, edge
            if abs(v.ot[i, n] - o['ot'][i]) > 1e-6 * (1 + abs(o['ot'][i])):
                return ('operative-temperature', '%s is at %.6f, its loads give %.6f' % (where, v.ot[i, n], o['ot'][i])), known, edge
            # never against the mode, never beyond the panel
            if v.lr[i, n] > g.cap_h[i] + 1e-6 or v.lr[i, n] < -g.cap_c[i] - 1e-6:
                return ('panel-capacity', '%s: panel delivers %.4f W, rated %.1f W heating, %.1f W cooling'
                        % (where, v.lr[i, n], g.cap_h[i], g.cap_c[i])), known, edge
            tot = v.lc[i, n] + v.lr[i, n]
            lo = min(v.lc[i, n], v.lr[i, n])
            hi = max(v.lc[i, n], v.lr[i, n])
            if (mode == ref.HEATING and lo < -1e-3) or (mode == ref.COOLING and hi > 1e-3):
                others = sum(1 for k in range(g.I) if o['ctrl'][k][0] != 'off')
                if others >= 2:
                    known.append('%s receives %.1f W by air and %.1f W by panel' % (where, v.lc[i, n], v.lr[i, n]))
                else:
                    return ('against-mode', '%s receives %.4f W by air and %.4f W by panel' % (where, v.lc[i, n], v.lr[i, n])), known, edge
            if mode not in (ref.HEATING, ref.COOLING) and abs(tot) > 1e-5:
                return ('load-while-off', '%s receives %.4f W' % (where, tot)), known, edge
    return None, known, edge


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    g = P.Geometry(scn['house'], s)
    first = None
    for var in variants(scn['house']):
        c, known, edge = judge(g, v, s, var, scn['house'], ctx)
        if c is None:
            ctx.probe('ticks_on_a_decision_edge_skipped', edge)
            if known:
                ctx.probe('tick_load_against_mode_by_coupling', len(known))
                ctx.fail('against-mode-coupled', known[0], KEY)
            return
        first = first or c
    ctx.fail(*first)
