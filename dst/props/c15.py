"""C15: reports tell what was simulated: digest, detail, files and inputs agree."""
import csv
import json
import os

import numpy as np
import pandas as pd

from .. import house as H
from .. import phys as P
from .. import ref

LEVEL = 'exploration'
RUNS = (160, 4000)
REAL, STUB = P.REAL, P.STUB
RULE = ('one run = one generated house and history, one choice of output files (none, digest, detail, both; fresh directory or one with '
        'stale results of another run); digest, detail table, files and inputs are cross-checked; distinct by history hash')
STATES = P.STATES
ASSUME = P.ASSUME
LIMIT = P.LIMIT
shrink = P.shrink


def gen(rng, idx, tier):
    D = rng.choice([1, 2, 3])
    up = rng.choice([0, 0, 1])
    scn = P.long(rng, idx, tier) or P.gen(rng, idx, tier, D=D, run={'n_d_main': rng.randint(1, D), 'n_d_run_up': up, 'n_d_run_up_build': up})
    scn['files'] = {'simple': rng.random() < 0.5, 'detail': rng.random() < 0.5, 'out': rng.random() < 0.8, 'stale': rng.random() < 0.5}
    if not scn['files']['out']:
        scn['files'].update(simple=False, detail=False)
    return scn


def listing(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}


def run(scn, ctx):
    f = scn['files']
    out = ctx.scratch('out')
    if f['stale']:
        for name in ('result_digest.csv', 'result_detail.csv', 'note.txt'):
            with open(os.path.join(out, name), 'w') as h:
                h.write('stale ' * 500000 if name != 'note.txt' else 'note')
        ctx.faults(['stale_output'])
    before = listing(out)
    s, ds, dd, v = H.observe(scn, ctx, out if f['out'] else None, show_simple_result=f['simple'], show_detail_result=f['detail'])
    P.coverage(ctx, v, scn['house'])
    after = listing(out)
    allowed = {n for n, w in (('result_digest.csv', f['simple']), ('result_detail.csv', f['detail'])) if w}
    for n in set(before) | set(after):
        if n not in allowed:
            ctx.check(before.get(n) == after.get(n), 'unasked-file', '%s was written or changed without being asked for' % n)
    for n in allowed:
        ctx.check(n in after, 'missing-file', '%s was asked for and not written' % n)
        file_equals(ctx, n, after[n], ds if n == 'result_digest.csv' else dd)
        ctx.probe('file_checked')
    ctx.check(sorted(os.listdir(ctx.inp)) == sorted(H.FILES), 'unasked-file',
              'the input directory now holds %s' % sorted(os.listdir(ctx.inp)))

    g = P.Geometry(scn['house'], s)
    n = v.n
    sl = slice(0, n)
    # restated inputs
    for name, got, want in (('outdoor temperature', v.to[None], s['theta_o'][None, sl]), ('outdoor humidity', v.xo[None], s['x_o'][None, sl]),
                            ('demand', v.ac, s['ac'][:, sl]), ('internal gains', v.qgen, s['q_gen'][:, sl]),
                            ('vapour gains', v.xgen, s['x_gen'][:, sl]), ('transmitted sunlight', v.qtrs, s['qtrs'][:, sl]),
                            ('sunlight on furniture', v.qsf, 0.5 * s['qtrs'][:, sl]),
                            ('sunlight on surfaces', v.qsol, (g.solw * g.A)[:, None] * s['qtrs'][g.room][:, sl])):
        ix = P.worst(got - want, np.abs(want) + 1e-6, 1e-9)
        ctx.check(ix is None, 'restated-input', lambda: '%s of %d, row %d: reported %.9g, input %.9g' % (name, ix[0], ix[1], got[ix], want[ix]))
    # derived columns
    pvs = np.array([[ref.p_vs(t) for t in row] for row in v.tr])
    rh = ref.pv_of_x(v.x) / pvs * 100.0
    kc = ref.HC_HUM / (ref.HC_HUM + ref.HR_HUM)
    mrt = (g.fm @ v.ts)[g.room]
    for name, got, want, sc in (('relative humidity', v.rh, rh, 1.0), ('radiant temperature', v.mrt, g.fh @ v.ts, 1.0),
                                ('operative temperature', v.ot, kc * v.tr + (1 - kc) * v.mrt, 1.0),
                                ('furniture heat', v.qf, g.Gf[:, None] * (v.tr - v.tf), 1.0),
                                ('furniture vapour', v.qlf, g.Gx[:, None] * (v.x - v.xf), 1e-5),
                                ('convective flux', v.qc, (g.hc * g.A)[:, None] * (v.tr[g.room] - v.ts), 10.0),
                                ('radiative flux', v.qr, (g.hr * g.A)[:, None] * (mrt - v.ts), 10.0),
                                ('total flux', v.qall, (g.hc + g.hr)[:, None] * (v.te - v.ts), 10.0),
                                ('convective coefficient', v.bhc, g.hc[:, None] + 0 * v.ts, 1.0),
                                ('radiative coefficient', v.bhr, g.hr[:, None] + 0 * v.ts, 1.0)):
        ix = P.worst(got - want, np.abs(want) + sc, 1e-6)
        ctx.check(ix is None, 'derived-column', lambda: '%s of %d, row %d: reported %.9g, the reported state gives %.9g'
                  % (name, ix[0], ix[1], got[ix], want[ix]))
    # digest
    ctx.check(len(ds) * 4 == len(dd), 'digest-rows', '%d digest rows for %d detail rows' % (len(ds), len(dd)))
    ctx.check(list(ds.index) == list(dd.index[::4]), 'digest-index', 'the digest is not stamped on the hours of the detail')
    names = ['out_temp', 'out_abs_humid'] + ['rm%d_%s' % (i, c) for i in range(g.I) for c in
                                             ('ac_operate', 't_r', 'x_r', 'ot', 'l_s_c', 'l_s_r', 'l_l_c')]
    missing = [c for c in names if c not in ds.columns]
    ctx.check(not missing, 'digest-columns', 'the digest lacks %s' % missing)
    for c in names:
        if c.endswith('ac_operate'):
            bad = [k for k in range(len(ds)) if int(ds[c].values[k]) != int(dd[c].values[4 * k])]
            ctx.check(not bad, 'digest-mode', lambda: '%s, hour %d: %s, on the hour it is %s' % (c, bad[0], ds[c].values[bad[0]], dd[c].values[4 * bad[0]]))
            continue
        x = np.array(dd[c].values, float).reshape(-1, 4)
        agg = x.sum(axis=1) if '_l_' in c else x.mean(axis=1)
        unit = 1.0 if '_l_' in c else 1e-4 if c.endswith('x_r') else 1e-2
        got = np.array(ds[c].values, float)
        bad = np.argwhere(~((np.abs(got - agg) <= 0.5 * unit * (1 + 1e-6)) & (np.abs(got / unit - np.round(got / unit)) <= 1e-5))).flatten()
        ctx.check(len(bad) == 0, 'digest-value', lambda: '%s, hour %d: digest %.9g, the %s of the hour is %.9g'
                  % (c, bad[0], got[bad[0]], 'sum' if '_l_' in c else 'mean', agg[bad[0]]))


def file_equals(ctx, name, blob, df):
    rows = list(csv.reader(blob.decode('cp932').splitlines()))
    ctx.check(rows[0][1:] == list(df.columns), 'file-columns', '%s has other columns than the returned table' % name)
    ctx.check(len(rows) == len(df) + 1, 'file-rows', '%s has %d rows for a table of %d' % (name, len(rows) - 1, len(df)))
    ctx.check([pd.Timestamp(r[0]) for r in rows[1:]] == list(df.index), 'file-index', '%s is stamped otherwise' % name)
    cols = [df[c].values for c in df.columns]
    for k, row in enumerate(rows[1:]):
        ctx.check(len(row) == len(cols) + 1, 'file-columns', '%s row %d is ragged' % (name, k))
        for c, txt in enumerate(row[1:]):
            x = cols[c][k]
            if isinstance(x, str):
                ok = txt == x
            elif isinstance(x, (float, np.floating)):
                ok = (txt == '' and np.isnan(x)) or (txt != '' and float(txt) == float(x))
            else:
                try:
                    ok = int(float(txt)) == int(x)
                except ValueError:
                    ok = txt in (str(x), getattr(x, 'name', None))
            if not ok:
                ctx.fail('file-value', '%s row %d, column %s holds %s, the table %r' % (name, k, df.columns[c], txt, x))
                return
