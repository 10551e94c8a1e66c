"""C13: calendar and run-up: every run starts, warms up and records on the right steps."""
import copy
import os

import numpy as np
import pandas as pd

from .. import house as H
from .. import phys as P
from .. import ref
from .c12 import variants
from .c18 import compare

LEVEL = 'exploration'
RUNS = (150, 4000)
LIMIT = 150
REAL, STUB = P.REAL, P.STUB
RULE = ('one run = one generated house, one environment history and a calendar question: prefix of a longer run, run-up against a '
        'rolled year, ground-only run-up against the model, refusal before writing, own-step response, or the default full year; '
        'distinct by history hash')
STATES = 'distinct (question, days main / run-up / building run-up) combinations'
ASSUME = P.ASSUME
KINDS = ('prefix', 'roll', 'roll', 'ground', 'refuse', 'ownstep')


def gen(rng, idx, tier):
    if idx == 0 or (tier == 'thorough' and idx % 400 == 0):
        scn = P.gen(rng, 7, tier, D=365, force={'rooms': 1, 'ground': True, 'pairs': False},
                    run={'n_d_main': 365, 'n_d_run_up': 365, 'n_d_run_up_build': 183})
        scn['q'] = {'kind': 'year', 'short': 2}
        return scn
    kind = KINDS[idx % len(KINDS)]
    D = rng.choice([2, 3, 4])
    run = {'n_d_main': D, 'n_d_run_up': rng.randint(0, D), 'n_d_run_up_build': 0}
    run['n_d_run_up_build'] = rng.randint(0, run['n_d_run_up'])
    f = {'ground': rng.random() < 0.5}
    q = {'kind': kind}
    if kind == 'prefix':
        q['short'] = rng.randint(1, D - 1)
    elif kind == 'roll':
        u = rng.randint(1, D - 1)
        run.update(n_d_main=rng.randint(1, D - u), n_d_run_up=u, n_d_run_up_build=u)
    elif kind == 'ground':
        f['ground'] = True
        run.update(n_d_main=1, n_d_run_up=rng.randint(1, D))
        run['n_d_run_up_build'] = rng.randint(0, run['n_d_run_up'] - 1)
    elif kind == 'refuse':
        run.update(n_d_run_up=rng.randint(0, D - 1))
        run['n_d_run_up_build'] = run['n_d_run_up'] + rng.randint(1, 3)
    scn = P.gen(rng, idx, tier, D=D, force=f, run=run)
    if kind == 'ownstep':
        N = D * H.STEPS
        scn['run'].update(n_d_main=D, n_d_run_up=0, n_d_run_up_build=0)
        nr = len(scn['house']['spaces'])
        q.update(n=rng.randrange(N), key=rng.choice(['q_gen', 'x_gen', 'occ', 'local_vent', 'qtrs', 'theta_o', 'x_o', 'ac']), room=rng.randrange(nr))
        if q['key'] in ('local_vent',):
            scn['base']['amp'] += 1.0
    scn['q'] = q
    return scn


def shrink(scn):
    q = scn['q']
    if q['kind'] == 'year':
        return
    D = scn['D']
    for s in H.shrink(scn):
        if s['D'] == D and not (q['kind'] == 'ownstep' and len(s['house']['spaces']) != len(scn['house']['spaces'])):
            yield s


def same(ctx, a, b, kind, what):
    ctx.check(list(a.columns) == list(b.columns), kind, what + ': other columns')
    for c in a.columns:
        x, y = a[c].values, b[c].values
        if c.endswith('remarks'):
            ok = np.array([p == q for p, q in zip(x, y)])
        else:
            ok = np.isclose(x.astype(float), y.astype(float), rtol=1e-7, atol=1e-7)
        if not ok.all():
            n = int(np.argmin(ok))
            ctx.check(False, kind, '%s: row %d, column %s: %s instead of %s' % (what, n, c, x[n], y[n]))


def calendar(ctx, ds, dd, days, n15=96):
    ctx.check(len(dd) == days * n15 and len(ds) == days * 24, 'row-count', '%d detail and %d digest rows for %d days'
              % (len(dd), len(ds), days))
    i, j = pd.DatetimeIndex(dd.index), pd.DatetimeIndex(ds.index)
    base = pd.Timestamp(i[0].year, 1, 1)
    k = np.argwhere(((i - base) / pd.Timedelta(minutes=15)).values != np.arange(len(i)))
    ctx.check(len(k) == 0, 'calendar', lambda: 'detail row %d is stamped %s' % (k[0][0], i[k[0][0]]))
    k = np.argwhere(((j - base) / pd.Timedelta(hours=1)).values != np.arange(len(j)))
    ctx.check(len(k) == 0, 'calendar', lambda: 'digest row %d is stamped %s' % (k[0][0], j[k[0][0]]))


def run(scn, ctx):
    q, r = scn['q'], scn['run']
    kind = q['kind']
    ctx.state(kind, r['n_d_main'], r['n_d_run_up'], r['n_d_run_up_build'])
    ctx.probe('question_' + kind)
    if kind == 'refuse':
        d = ctx.scratch()
        H.write(d, scn['house'], H.expand(scn))
        out = ctx.scratch()
        for f in ('result_detail.csv', 'result_digest.csv'):
            with open(os.path.join(out, f), 'w') as h:
                h.write('kept')
        err = None
        try:
            H.core_calc(d, out, show_simple_result=True, show_detail_result=True, **r)
        except Exception as e:
            err = e
        ctx.check(err is not None, 'not-refused', 'a building run-up of %d days within a run-up of %d days is accepted'
                  % (r['n_d_run_up_build'], r['n_d_run_up']))
        ctx.check(isinstance(err, ValueError), 'refusal', 'refused with %r instead of ValueError' % (err,))
        left = {f: open(os.path.join(out, f)).read() for f in sorted(os.listdir(out))}
        ctx.check(left == {'result_detail.csv': 'kept', 'result_digest.csv': 'kept'}, 'refused-late', 'files were touched before the refusal')
        ctx.log(kind, sorted(r.items()))
        return
    s, ds, dd, v = H.observe(scn, ctx)
    calendar(ctx, ds, dd, r['n_d_main'])
    n = v.n
    for name, got, want in (('out_temp', v.to, s['theta_o'][:n]), ('out_abs_humid', v.xo, s['x_o'][:n]), ('demand', v.ac, s['ac'][:, :n]),
                            ('gains', v.qgen, s['q_gen'][:, :n]), ('sunlight', v.qtrs, s['qtrs'][:, :n])):
        ctx.check(np.allclose(got, want, rtol=1e-9, atol=1e-9), 'recorded-inputs', 'recorded %s are not those of the recorded steps' % name)
    if kind in ('prefix', 'year'):
        d2, s2, ds2, dd2 = H.simulate(scn, ctx, n_d_main=q['short'])
        calendar(ctx, ds2, dd2, q['short'])
        same(ctx, dd2, dd.iloc[:q['short'] * H.STEPS], 'prefix', 'main period of %d days against %d days' % (q['short'], r['n_d_main']))
        same(ctx, ds2, ds.iloc[:q['short'] * 24], 'prefix', 'digest of %d days against %d days' % (q['short'], r['n_d_main']))
        if kind == 'year':                          # the documented defaults are this very run
            d3 = ctx.scratch()
            H.write(d3, scn['house'], s)
            ds3, dd3 = H.core_calc(d3, None, n_d_main=q['short'])
            same(ctx, dd3, dd2, 'defaults', 'run-up by default against 365 days with 183 days of building')
    elif kind == 'roll':
        u = r['n_d_run_up'] * H.STEPS
        d2 = ctx.scratch()
        s2 = {k: np.roll(a, u, axis=-1) for k, a in s.items()}
        H.write(d2, scn['house'], s2)
        ds2, dd2 = H.core_calc(d2, None, n_d_main=r['n_d_main'] + r['n_d_run_up'], n_d_run_up=0, n_d_run_up_build=0)
        same(ctx, dd, dd2.iloc[u:u + n], 'run-up', 'run-up of %d days against simulating the last %d days before'
             % (r['n_d_run_up'], r['n_d_run_up']))
    elif kind == 'ground':
        ctx.probe('ground_only_days', r['n_d_run_up'] - r['n_d_run_up_build'])
        first = None
        for var in variants(scn['house']):
            c, k = compare(scn, s, v, var)
            if c is None:
                return
            first = first or c
        ctx.fail('ground-run-up', 'after a ground run-up of %d days and %d days of building: %s'
                 % (r['n_d_run_up'] - r['n_d_run_up_build'], r['n_d_run_up_build'], first[1]))
    elif kind == 'ownstep':
        m = q['n']
        s2 = {k: a.copy() for k, a in s.items()}
        i = q['room']
        amount = {'q_gen': 500.0, 'x_gen': 1e-4, 'occ': 5.0, 'local_vent': 0.1, 'qtrs': 800.0, 'theta_o': 3.0, 'x_o': 0.004, 'ac': 0.0}[q['key']]
        if q['key'] in ('theta_o', 'x_o'):
            s2[q['key']][m] += amount
        elif q['key'] == 'ac':
            s2['ac'][i, m] = 0.0 if s['ac'][i, m] > 0 else 1.0
        else:
            s2[q['key']][i, m] += amount
        d2 = ctx.scratch()
        H.write(d2, scn['house'], s2)
        ds2, dd2 = H.core_calc(d2, None, **r)
        v2 = H.View(scn['house'], dd2)
        col = {'x_gen': ('x', 'lcl'), 'x_o': ('xo',), 'q_gen': ('ot', 'lc', 'lr'), 'occ': ('ot', 'lc', 'lr', 'x'), 'local_vent': ('ot', 'lc', 'lr', 'x'),
               'qtrs': ('ot', 'lc', 'lr'), 'theta_o': ('to',), 'ac': ('ac',)}[q['key']]
        hit = max(np.abs(np.atleast_2d(getattr(v, c))[:, m] - np.atleast_2d(getattr(v2, c))[:, m]).max() for c in col)
        ctx.check(hit > 0, 'own-step', 'changing %s at step %d leaves row %d unchanged' % (q['key'], m, m))
        if m + 1 < n:
            same_rows = all(np.allclose(getattr(v, c)[..., :m], getattr(v2, c)[..., :m], rtol=1e-7, atol=1e-7)
                            for c in ('ot', 'lc', 'lr', 'x', 'tr')) or bool(scn['feat'].get('ground') and q['key'] == 'theta_o')
            ctx.check(same_rows, 'own-step', 'changing %s at step %d changes an earlier row' % (q['key'], m))
