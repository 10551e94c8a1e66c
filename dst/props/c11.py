"""C11: the operating mode follows the comfort automaton with hysteresis and demand gating."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref

LEVEL = 'exploration'
RUNS = (300, 8000)
REAL, STUB, RULE, STATES = P.REAL, P.STUB, P.RULE, 'distinct (previous mode, demand class, comfort region, mode) transitions'
ASSUME = P.ASSUME + ['votes within 1e-6 of a threshold are not judged']
shrink = P.shrink
LIMIT = P.LIMIT


def gen(rng, idx, tier):
    return P.gen(rng, idx, tier, regime=rng.choice(['cold', 'hot', 'mild', 'mild', 'swing', 'swing']),
                 events=rng.choice([4, 8, 12, 20]))


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    ctx.sig = []
    g = P.Geometry(scn['house'], s)
    trp, mrtp, xp, mp = P.prev(v.tr, 15.0), P.prev(v.mrt, 15.0), P.prev(v.x, P.X0), P.prev(v.mode, ref.STOP_CLOSE)
    # the reported comfort state is the one of the surfaces and air it is computed from
    mrt = g.fh @ v.ts
    ix = P.worst(v.mrt - mrt, 1.0 + np.abs(mrt), 1e-8)
    ctx.check(ix is None, 'mean-radiant-temperature', lambda: 'room %d, row %d: radiant temperature %.6f instead of %.6f'
              % (ix[0], ix[1], v.mrt[ix], mrt[ix]))
    ix = P.worst(v.ac - s['ac'][:, :v.n], 1.0 + 0 * v.ac, 1e-12)
    ctx.check(ix is None, 'demand-column', lambda: 'room %d, row %d: reported demand differs' % tuple(ix))
    skip = 0
    for i in range(g.I):
        for n in range(v.n):
            d = s['ac'][i, n]
            hv, md, lt = ref.votes(trp[i, n], mrtp[i, n], xp[i, n])
            if d > 0 and min(abs(abs(hv) - 0.7), abs(abs(lt) - 0.7), abs(md)) < 1e-6:
                skip += 1
                continue
            want = ref.next_mode(int(mp[i, n]), d, hv, md, lt)
            region = '%d%d%d' % ((hv > 0.7) * 2 + (hv > -0.7), md > 0, (lt > 0.7) * 2 + (lt > -0.7))
            ctx.sig.append('%d/%s/%s/%d' % (mp[i, n], 'off' if d <= 0 else 'part' if d < 1 else 'on', region, want))
            ctx.check(v.mode[i, n] == want, 'mode', lambda: 'room %d, row %d: mode %d after mode %d with demand %g and votes heavy '
                      '%.4f, middle %.4f, light %.4f; expected %d' % (i, n, v.mode[i, n], mp[i, n], d, hv, md, lt, want))
            r = v.remarks[i][n]
            m = want
            vh = ref.v_hum(m, g.rad_h[i], g.rad_c[i])
            ok = abs(r.get('pmv_target', 99) - ref.PMV_TARGET[m]) < 1e-9 and abs(r.get('clo', 99) - ref.CLO[m]) < 1e-9 \
                and abs(r.get('v_hum m/s', 99) - vh) < 1e-9
            ctx.check(ok, 'remarks', lambda: 'room %d, row %d: mode %d is reported with %r' % (i, n, m, r))
            ctx.check(abs(v.hc[i, n] - ref.HC_HUM) < 1e-9 and abs(v.hr[i, n] - ref.HR_HUM) < 1e-9, 'occupant-film',
                      lambda: 'room %d, row %d: occupant film coefficients %g, %g' % (i, n, v.hc[i, n], v.hr[i, n]))
    ctx.sig = sorted(set(ctx.sig))
    ctx.probe('ticks_at_threshold_skipped', skip)
