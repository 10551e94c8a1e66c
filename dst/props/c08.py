"""C08: water vapour is conserved; the coil only removes what it condenses."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref

LEVEL = 'exploration'
RUNS = (400, 6000)
REAL, STUB, RULE, STATES = P.REAL, P.STUB, P.RULE, P.STATES
ASSUME = P.ASSUME + ['KF1: neighbour-room vapour is accepted in its known wrong form and reported as a known finding']
shrink = P.shrink
LIMIT = P.LIMIT
KEY = 'interroom-air-moisture'


def gen(rng, idx, tier):
    if idx % 4 == 1:
        return contest(rng, tier)
    # most runs warm and humid, so that the coil works
    return P.gen(rng, idx, tier, regime=rng.choice(['hot', 'hot', 'hot', 'mild', 'swing', 'cold']))


def contest(rng, tier):
    """rooms that draw air from each other, one coil drying hard while another's surface is just at the dew point"""
    scn = P.gen(rng, 5, tier, regime='hot', force={'interroom': True, 'rooms': rng.choice([2, 3, 3, 4])})
    h, b = scn['house'], scn['base']
    n = len(h['spaces'])
    for i, sp in enumerate(h['spaces']):
        sp['ventilation']['next_spaces'] = [0.0 if k == i or rng.random() < 0.3 else
                                            round(rng.uniform(0.05, 0.4) * sp['volume'] / 900.0, 6) for k in range(n)]
        sp['ventilation']['mechanical'] = round(sp['ventilation']['mechanical'] * rng.choice([0.0, 0.3, 1.0]), 6)
        b['q_gen'][i] = rng.choice([0.0, 100.0, 300.0, 2500.0, 4000.0])
        b['x_gen'][i] = rng.choice([0.0, 0.0, b['x_gen'][i]])
        b['ac'][i] = rng.choice(['on', 'on', b['ac'][i]])
    b['rh'] = round(rng.uniform(0.5, 0.9), 2)
    h['building']['c_value'] = rng.choice([0.0, 0.5, h['building']['c_value']])
    return scn


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    g = P.Geometry(scn['house'], s)
    sl = slice(0, v.n)
    rho = ref.RHO
    xp, xfp, trp = P.prev(v.x, P.X0), P.prev(v.xf, P.X0), P.prev(v.tr, 15.0)
    at = lambda ix: 'room %d, row %d' % tuple(ix)
    ctx.check((v.x >= 0).all() and (v.xf >= 0).all(), 'humidity-negative', 'humidity below zero: %g' % min(v.x.min(), v.xf.min()))
    _, xh = g.human(trp, s['occ'][:, sl])
    ix = P.worst(v.xhum - xh, np.abs(xh) + 1e-6, 1e-8)
    ctx.check(ix is None, 'human-vapour', lambda: 'human vapour of %s is %.4g kg/s instead of %.4g' % (at(ix), v.xhum[ix], xh[ix]))
    # furnishings
    stored = g.Cx[:, None] / 900.0 * (v.xf - xfp)
    exch = g.Gx[:, None] * (v.x - v.xf)
    ix = P.worst(stored - exch, np.abs(stored) + np.abs(exch) + g.Cx[:, None] / 900.0 * 1e-3, 1e-7)
    ctx.check(ix is None, 'furnishing-vapour', lambda: 'furnishings of %s store %.4g kg/s but receive %.4g kg/s'
              % (at(ix), stored[ix], exch[ix]))
    # coil: only while delivering sensible cooling, only below the dew point, never positive
    ctx.check((v.lcl <= 1e-9).all(), 'latent-positive', lambda: 'latent load is positive: %g W' % v.lcl.max())
    wet = v.lcl < -1e-6
    ix = np.argwhere(wet & (v.lc >= -1e-3 * (1 - 1e-9)))
    ctx.check(len(ix) == 0, 'condenses-without-cooling', lambda: '%s: %.4g W latent while the sensible load is %.4g W'
              % (at(ix[0]), v.lcl[tuple(ix[0])], v.lc[tuple(ix[0])]))
    coil = [sp['equipment']['cooling']['convective'] for sp in scn['house']['spaces']]
    for i, c in enumerate(coil):
        q = -v.lc[i]
        for n in np.argwhere(q > 1e-3).flatten():
            vac = (c['v_min'] + (c['v_max'] - c['v_min']) / (c['q_max'] - c['q_min']) * (q[n] - c['q_min'])) / 60.0 * 0.8
            xe = ref.x_of_pv(ref.p_vs(v.tr[i, n] - q[n] / (ref.C_AIR * rho * vac)))
            want = -rho * vac * (v.x[i, n] - xe) * ref.L_WTR
            if abs(want) < 1e-4 * ref.L_WTR * rho * vac * 1e-3:
                continue                                        # within rounding of the dew point
            if wet[i, n]:
                ctx.check(xe < v.x[i, n], 'condenses-above-dew-point', 'room %d, row %d: %.4g W latent, but the coil surface holds '
                          '%.6f kg/kg and the room %.6f' % (i, n, v.lcl[i, n], xe, v.x[i, n]))
                ctx.check(abs(v.lcl[i, n] - want) <= 1e-6 * (abs(want) + 1.0), 'latent-amount',
                          'room %d, row %d: latent load %.6f W, the coil condenses %.6f W' % (i, n, v.lcl[i, n], want))
            else:
                ctx.check(want > 0, 'coil-below-dew-point-dry', 'room %d, row %d: coil surface at %.6f kg/kg below the room\'s %.6f '
                          'and nothing condensed' % (i, n, xe, v.x[i, n]))
    # room air
    vnat = np.where(v.mode == ref.STOP_OPEN, g.vn[:, None], 0.0)
    vout = g.leak(trp, s['theta_o'][sl]) + g.vm[:, None] + s['local_vent'][:, sl] + vnat
    stored = rho * g.V[:, None] / 900.0 * (v.x - xp)
    out = rho * vout * (s['x_o'][sl] - v.x)
    gains = s['x_gen'][:, sl] + xh - exch + v.lcl / ref.L_WTR
    true = rho * (g.vi @ v.x - g.vi.sum(axis=1)[:, None] * v.x)
    asis = rho * (g.vi @ v.x)
    scale = np.abs(stored) + np.abs(out) + np.abs(gains) + np.abs(asis) + 1e-5
    r_true, r_asis = stored - out - gains - true, stored - out - gains - asis
    flow = g.vi.sum(axis=1) > 0
    ix = P.worst(np.where(flow[:, None], np.where(np.abs(r_asis) < np.abs(r_true), r_asis, r_true), r_true), scale, 1e-7)
    ctx.check(ix is None, 'room-vapour', lambda: 'room air of %s stores %.6g kg/s of water but receives %.6g'
              % (at(ix), stored[ix], stored[ix] - r_true[ix]))
    if flow.any():
        ctx.probe('rooms_with_neighbour_air', flow.sum())
        bad = np.abs(r_true) > 1e-7 * scale
        if bad.any():
            i, k = np.argwhere(bad)[0]
            ctx.fail('neighbour-air-moisture', 'room %d, row %d: air drawn from neighbours adds %.3g kg/s of water instead of %.3g'
                     % (i, k, asis[i, k], true[i, k]), KEY)
