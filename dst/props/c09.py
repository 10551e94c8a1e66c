"""C09: every surface balances, radiation cancels, solar and panel heat arrive whole."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref

LEVEL = 'exploration'
RUNS = (220, 6000)
REAL, STUB, RULE, STATES, ASSUME = P.REAL, P.STUB, P.RULE, P.STATES, P.ASSUME
shrink = P.shrink
LIMIT = P.LIMIT


def gen(rng, idx, tier):
    return P.gen(rng, idx, tier, force={'shuffle': rng.random() < 0.8, 'panel': rng.random() < 0.7})


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    g = P.Geometry(scn['house'], s)
    sl = slice(0, v.n)
    b = scn['house']['boundaries']
    at = lambda ix: 'surface %d (%s of room %d), row %d' % (ix[0], b[ix[0]]['name'], g.room[ix[0]], ix[1])
    hr, hc, A = g.hr[:, None], g.hc[:, None], g.A[:, None]
    ix = P.worst(v.bhr - hr, hr + 0 * v.bhr, 1e-6)
    ctx.check(ix is None, 'radiative-coefficient', lambda: '%s reports %.6f W/m2K, its own room and area give %.6f'
              % (at(ix), v.bhr[ix], g.hr[ix[0]]))
    ix = P.worst(v.bhc - hc, hc + 0 * v.bhc, 1e-9)
    ctx.check(ix is None, 'convective-coefficient', lambda: '%s reports %.6f W/m2K instead of %.6f' % (at(ix), v.bhc[ix], g.hc[ix[0]]))
    tr = v.tr[g.room]
    mrt = (g.fm @ v.ts)[g.room]
    conv = hc * (tr - v.ts)
    rad = hr * (mrt - v.ts)
    sol = g.solw[:, None] * s['qtrs'][g.room][:, sl]
    lr = v.lr[g.room]
    panel = g.flr[:, None] * (1.0 - g.beta[g.room])[:, None] * lr / A
    want = conv + rad + sol + panel
    scale = np.abs(conv) + np.abs(rad) + np.abs(sol) + np.abs(panel) + 10.0
    ix = P.worst(v.qall - want, scale, 1e-6)
    ctx.check(ix is None, 'surface-balance', lambda: '%s takes %.6f W/m2: convection %.4f + radiation %.4f + sun %.4f + panel %.4f'
              % (at(ix), v.qall[ix], conv[ix], rad[ix], sol[ix], panel[ix]))
    ix = P.worst(v.qall - (v.te - v.ts) * (hr + hc), scale, 1e-6)
    ctx.check(ix is None, 'environment-temperature', lambda: '%s: flux %.6f does not belong to environment temperature %.6f'
              % (at(ix), v.qall[ix], v.te[ix]))
    for name, got, ref_ in (('convective-flux', v.qc, conv * A), ('radiative-flux', v.qr, rad * A), ('solar-flux', v.qsol, sol * A)):
        ix = P.worst(got - ref_, scale * A, 1e-6)
        ctx.check(ix is None, name, lambda: '%s reports %.6f W instead of %.6f W' % (at(ix), got[ix], ref_[ix]))
    rm = lambda ix: 'room %d, row %d' % tuple(ix)
    net = g.P @ v.qr
    ix = P.worst(net, g.P @ np.abs(v.qr) + 1.0, 1e-6)
    ctx.check(ix is None, 'radiation-sum', lambda: '%s: surfaces exchange a net %.6f W of radiation' % (rm(ix), net[ix]))
    got = g.P @ v.qsol + v.qsf
    ix = P.worst(got - s['qtrs'][:, sl], s['qtrs'][:, sl] + 1.0, 1e-9)
    ctx.check(ix is None, 'sun-total', lambda: '%s: %.6f W of %.6f W transmitted sunlight are absorbed' % (rm(ix), got[ix], s['qtrs'][ix]))
    flr = g.P @ g.flr
    for i in range(g.I):
        if abs(flr[i] - 1.0) < 1e-9:
            m = g.room == i
            tot = (v.qall[m] * A[m] - v.qc[m] - v.qr[m] - v.qsol[m]).sum(axis=0)
            w = (1.0 - g.beta[i]) * v.lr[i]
            sc = (np.abs(v.qall[m]) * A[m]).sum(axis=0) + 100.0
            k = np.argwhere(~(np.abs(tot - w) <= 1e-6 * sc)).flatten()
            ctx.check(len(k) == 0, 'panel-total', lambda: 'room %d, row %d: surfaces emit %.6f W of %.6f W radiant panel heat'
                      % (i, k[0], tot[k[0]], w[k[0]]))
    ctx.probe('tick_sun', (s['qtrs'][:, sl] > 0).sum())
    ctx.probe('shuffled_order', any(g.room[j] > g.room[j + 1] for j in range(g.J - 1)))
