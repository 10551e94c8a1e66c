"""C18: whole trajectories refine the independent executable model (free running, not step by step)."""
import numpy as np

from .. import house as H
from .. import phys as P
from .. import ref
from .c12 import variants

LEVEL = 'exploration'
RUNS = (260, 6000)
REAL, STUB, STATES = P.REAL, P.STUB, P.STATES
RULE = P.RULE + '; both models run freely from the initial state through ground and building run-up, main period compared row by row'
ASSUME = P.ASSUME + ['comparison of a run stops at the first decision within 1e-6 of its threshold',
                     'for houses touched by KF1/KF2 one form (known or correct) has to explain the whole run']
shrink = P.shrink
LIMIT = P.LIMIT


def gen(rng, idx, tier):
    scn = P.long(rng, idx, tier)
    if scn:
        scn['run'].update(n_d_run_up=2, n_d_run_up_build=1)
        return scn
    D = rng.choice([1, 2, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 6])
    main = rng.randint(1, D)
    up = rng.choice([0, rng.randint(0, D), D])
    build = rng.choice([up, rng.randint(0, up)])
    return P.gen(rng, idx, tier, D=D, force={'ground': rng.random() < 0.6},
                 run={'n_d_main': main, 'n_d_run_up': up, 'n_d_run_up_build': build})


def compare(scn, s, v, var):
    m = ref.Model(scn['house'], s, var)
    r = scn['run']
    N = len(s['theta_o'])
    st = m.initial()
    S = H.STEPS
    edge = lambda o: (o['margins'] and min(o['margins']) < 1e-6) or min(o['vmargin']) < 1e-6
    st = m.ground_run_up(st, -r['n_d_run_up'] * S, -r['n_d_run_up_build'] * S)
    for n in range(-r['n_d_run_up_build'] * S, 0):
        st, o = m.step(st, n)
        if edge(o):
            return None, 0
    for n in range(v.n):
        st, o = m.step(st, n)
        if edge(o):
            return None, n
        load = 100.0 + np.abs(o['lc']).max() + np.abs(o['lr']).max()
        for name, a, b, sc in (('mode', np.array(o['mode'], float), v.mode[:, n].astype(float), 1e-3),
                               ('room temperature', o['tr'], v.tr[:, n], 10.0), ('operative temperature', o['ot'], v.ot[:, n], 10.0),
                               ('air load', o['lc'], v.lc[:, n], load), ('panel load', o['lr'], v.lr[:, n], load),
                               ('furniture temperature', o['tf'], v.tf[:, n], 10.0),
                               ('surface temperature', o['ts'], v.ts[:, n], 10.0), ('surface flux', o['q'], v.qall[:, n], 50.0),
                               ('environment temperature', o['tei'], v.te[:, n], 10.0), ('rear temperature', o['rear'], v.tb[:, n], 10.0),
                               ('humidity', o['x'], v.x[:, n], 0.01), ('furnishing humidity', o['xf'], v.xf[:, n], 0.01),
                               ('latent load', o['lcl'], v.lcl[:, n], load), ('leakage', o['leak'], v.leak[:, n], 0.01),
                               ('human heat', o['q_hum'], v.qhum[:, n], 100.0), ('human vapour', o['x_hum'], v.xhum[:, n], 1e-4),
                               ('radiant temperature', o['mrt'], v.mrt[:, n], 10.0)):
            d = np.abs(a - b)
            k = int(np.argmax(d))
            if not d[k] <= 1e-5 * sc:
                return ('trajectory:' + name.split()[0] + '-' + name.split()[-1], 'row %d, %s %d: %.9g, the model gives %.9g'
                        % (n, name, k, b[k], a[k])), n
    return None, v.n


def run(scn, ctx):
    s, ds, dd, v = H.observe(scn, ctx)
    P.coverage(ctx, v, scn['house'])
    first = None
    for var in variants(scn['house']):
        c, n = compare(scn, s, v, var)
        if c is None:
            ctx.probe('rows_compared', n)
            ctx.nontrivial = n > 0
            ctx.probe('ground_run_up', scn['run']['n_d_run_up'] > scn['run']['n_d_run_up_build'])
            return
        first = first or c
    ctx.fail(*first)
