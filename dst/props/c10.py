"""C10: walls remember exactly; conduction follows the response-factor recursion."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref

LEVEL = 'exploration'
RUNS = (220, 6000)
REAL, STUB, RULE, STATES = P.REAL, P.STUB, P.RULE, P.STATES
ASSUME = P.ASSUME + ['KF2: the immediate term of partitions is accepted in its known wrong form and reported as a known finding']
shrink = P.shrink
LIMIT = P.LIMIT
KEY = 'partition-coefficients'
TOL = 2e-6


def gen(rng, idx, tier):
    f = {'direct_rf': rng.random() < 0.5, 'td': rng.random() < 0.6, 'ground': rng.random() < 0.5}
    if idx % 3 == 0:
        f.update(pairs=True, odd_pairs=rng.random() < 0.6, rooms=rng.choice([2, 3]))
    if idx % 3 == 1:
        f.update(pairs=False)
    return P.gen(rng, idx, tier, force=f, D=rng.choice([1, 1, 2, 3]))


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    g = P.Geometry(scn['house'], s)
    m = g.m
    b = scn['house']['boundaries']
    for j in range(g.J):                       # the model's own factors keep the layers' resistance
        R = ref.spec_resistance(b[j]['spec'])
        assert abs(m.a0[j] + (m.a1[j] / (1 - m.rr[j])).sum() - R) < 1e-6 * R + 1e-9, 'reference response factors'
    at = lambda j, n: 'surface %d (%s of room %d), row %d' % (j, b[j]['name'], g.room[j], n)
    known = None
    mrt = g.fm @ v.ts
    for n, ta, tt, q, te, rear in P.histories(g, v, s):
        d = np.abs(v.tb[:, n] - rear)
        j = int(np.argmax(d))
        ctx.check(d[j] <= 1e-8 * (1 + abs(rear[j])), 'rear-temperature', lambda: '%s: rear temperature %.6f instead of %.6f'
                  % (at(j, n), v.tb[j, n], rear[j]))
        mem = (g.a1 * q[:, None] + g.rr * ta).sum(axis=1) + (g.t1 * rear[:, None] + g.rr * tt).sum(axis=1)
        base = g.a0 * v.qall[:, n] + mem + g.t0 * g.ko * s['theta_sol'][:, n]
        for j in range(g.J):
            want = base[j]
            alt = None
            if g.link[j] is not None:
                k, c = g.link[j]
                want = want + g.t0[j] * c * v.te[k, n]
                if k != j:
                    i = g.room[k]
                    te_asis = (g.hc[j] * v.tr[i, n] + g.hr[j] * mrt[i, n] + g.solw[k] * s['qtrs'][i, n]
                               + g.flr[k] * (1 - g.beta[i]) * v.lr[i, n] / g.A[j]) / (g.hc[j] + g.hr[j])
                    alt = base[j] + g.t0[j] * c * te_asis
            scale = 10.0 + abs(v.ts[j, n]) + abs(g.a0[j] * v.qall[j, n])
            if abs(v.ts[j, n] - want) <= TOL * scale:
                continue
            ctx.check(alt is not None and abs(v.ts[j, n] - alt) <= TOL * scale, 'conduction',
                      lambda: '%s: surface at %.6f, the response to its history is %.6f' % (at(j, n), v.ts[j, n], want))
            if known is None:
                known = (j, n, v.ts[j, n], want)
    ctx.probe('walls_linked', sum(1 for j in range(g.J) if g.link[j] is not None and g.link[j][0] != j))
    ctx.probe('walls_self_linked', sum(1 for j in range(g.J) if g.link[j] is not None and g.link[j][0] == j))
    ctx.probe('walls_ground', int(g.ground.sum()))
    if known is not None:
        ctx.fail('partition-rear', '%s: surface at %.6f, the far side\'s own environment gives %.6f'
                 % (at(known[0], known[1]), known[2], known[3]), KEY)
