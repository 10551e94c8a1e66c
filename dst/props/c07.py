"""C07: sensible heat is conserved in every room at every step."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref
from ..rt import Violation

LEVEL = 'exploration'
RUNS = (220, 6000)
REAL, STUB, RULE, STATES = P.REAL, P.STUB, P.RULE, P.STATES
ASSUME = P.ASSUME + ['KF1: neighbour-room air is accepted in its known wrong form and reported as a known finding']
gen, shrink = P.gen, P.shrink
KEY = 'interroom-air-heat'


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    g = P.Geometry(scn['house'], s)
    n = v.n
    sl = slice(0, n)
    ca = ref.C_AIR * ref.RHO
    trp, tfp = P.prev(v.tr, 15.0), P.prev(v.tf, 15.0)
    to = s['theta_o'][sl]
    leak = g.leak(trp, to)
    at = lambda ix: 'room %d, row %d' % tuple(ix)
    ix = P.worst(v.leak - leak, 1e-9 + np.abs(leak), 1e-7)
    ctx.check(ix is None, 'leakage', lambda: 'leakage of %s is %.9g m3/s instead of %.9g' % (at(ix), v.leak[ix], leak[ix]))
    ctx.check((v.leak >= 0).all(), 'leakage-negative', 'leakage is negative')
    vnat = np.where(v.mode == ref.STOP_OPEN, g.vn[:, None], 0.0)
    ix = P.worst(v.vnat - vnat, 1.0, 1e-9)
    ctx.check(ix is None, 'natural-ventilation', lambda: 'natural ventilation of %s is %.6g instead of %.6g m3/s in mode %d'
              % (at(ix), v.vnat[ix], vnat[ix], v.mode[ix]))
    qh, _ = g.human(trp, s['occ'][:, sl])
    ix = P.worst(v.qhum - qh, 1.0 + np.abs(qh), 1e-8)
    ctx.check(ix is None, 'human-heat', lambda: 'human heat of %s is %.6f W instead of %.6f W' % (at(ix), v.qhum[ix], qh[ix]))
    # furniture
    stored = g.Cf[:, None] / 900.0 * (v.tf - tfp)
    exch = g.Gf[:, None] * (v.tr - v.tf)
    sun = 0.5 * s['qtrs'][:, sl]
    scale = np.abs(stored) + np.abs(exch) + sun + g.Cf[:, None] / 900.0 * 1.0 + 1.0
    ix = P.worst(stored - exch - sun, scale, 1e-7)
    ctx.check(ix is None, 'furniture-heat', lambda: 'furniture of %s stores %.6f W but receives %.6f W'
              % (at(ix), stored[ix], exch[ix] + sun[ix]))
    # room air
    vout = leak + g.vm[:, None] + s['local_vent'][:, sl] + vnat
    conv = np.array([((g.A * g.hc)[g.room == i][:, None] * (v.ts[g.room == i] - v.tr[i])).sum(axis=0) for i in range(g.I)])
    stored = ca * g.V[:, None] / 900.0 * (v.tr - trp)
    out = ca * vout * (to - v.tr)
    gains = s['q_gen'][:, sl] + qh - exch + v.lc + g.beta[:, None] * v.lr
    true = ca * (g.vi @ v.tr - g.vi.sum(axis=1)[:, None] * v.tr)
    asis = -ca * (g.vi @ v.tr)
    scale = np.abs(stored) + np.abs(conv) + np.abs(out) + np.abs(gains) + np.abs(true) + np.abs(asis) + 100.0
    r_true = stored - conv - out - gains - true
    r_asis = stored - conv - out - gains - asis
    flow = g.vi.sum(axis=1) > 0
    ctx.ticks += 0
    ix = P.worst(np.where(flow[:, None], np.where(np.abs(r_asis) < np.abs(r_true), r_asis, r_true), r_true), scale, 1e-7)
    ctx.check(ix is None, 'room-heat', lambda: 'room air of %s stores %.4f W but receives %.4f W (imbalance %.4g W)'
              % (at(ix), stored[ix], stored[ix] - r_true[ix], r_true[ix]))
    if flow.any():
        ctx.probe('rooms_with_neighbour_air', flow.sum())
        bad = np.abs(r_true) > 1e-7 * scale
        if bad.any():
            i, k = np.argwhere(bad)[0]
            ctx.fail('neighbour-air-heat', 'room %d, row %d: air drawn from neighbours adds %.1f W instead of %.1f W'
                     % (i, k, asis[i, k], true[i, k]), KEY)
