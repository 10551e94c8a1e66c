"""Independent executable reference model of one building step.

Written from the balance equations (docs/derivation, comments in the code), not from the
elimination used by the product: every step assembles one sparse-looking system in the unknowns
(air, surface, equivalent and furniture temperatures, fluxes, operative temperature, loads)
and solves it directly.

``variants``: two places where the product deviates from its own balance equations are known
findings; the model can be run in either form of each:
    'vent': 'asis'  - neighbour-room air counted as an extra loss term (known finding KF1)
            'true'  - neighbour-room air replaces room air (conserves heat and water)
    'rear': 'asis'  - the far side of a partition is evaluated with the near side's coefficients (KF2)
            'true'  - the far side's own environment temperature drives the partition
"""
import math
import numpy as np

C_AIR, RHO, L_WTR = 1005.0, 1.2, 2501000.0
SGM, EPS = 5.67e-8, 0.9
HC_HUM = 4.0
HR_HUM = 4 * 3.96 * 10 ** (-8) * (20.0 + 273.15) ** 3.0
MET = 58.15
COOLING, HEATING, STOP_OPEN, STOP_CLOSE = 1, 2, 3, 4
ASIS = {'vent': 'asis', 'rear': 'asis'}
TRUE = {'vent': 'true', 'rear': 'true'}


# ---------------------------------------------------------------- psychrometrics / comfort
def p_vs(theta):
    t = theta + 273.15
    if theta >= 0.0:
        return math.exp(-6096.9385 / t + 21.2409642 - 0.02711193 * t + 0.00001673952 * t * t
                        + 2.433502 * math.log(t))
    return math.exp(-6024.5282 / t + 29.32707 + 0.010613863 * t - 0.000013198825 * t * t
                    - 0.49382577 * math.log(t))


def x_of_pv(pv):
    return 0.622 * pv / (101325 - pv)


def pv_of_x(x):
    return 101325 * x / (x + 0.62198)


def _clo(clo):
    icl = 0.155 * clo
    fcl = 1.00 + 1.290 * icl if icl <= 0.078 else 1.05 + 0.645 * icl
    return icl, fcl


def pmv(theta_r, ot, pa, clo):
    icl, fcl = _clo(clo)
    h = HC_HUM + HR_HUM
    return (0.303 * math.exp(-0.036 * MET) + 0.028) * (
        MET - 3.05e-3 * (5733.0 - 6.99 * MET - pa) - max(0.42 * (MET - 58.15), 0.0)
        - 1.7e-5 * MET * (5867.0 - pa) - 0.0014 * MET * (34.0 - theta_r)
        - fcl * h * (35.7 - 0.028 * MET - ot) / (1 + icl * fcl * h))


def ot_for_pmv(target, pa, clo):
    """operative temperature giving the target vote when air temperature = operative temperature"""
    lo, hi = -150.0, 150.0
    f = lambda t: pmv(t, t, pa, clo) - target
    # the vote is affine in the common temperature
    a, b = f(0.0), f(1.0)
    return -a / (b - a)


CLO = {HEATING: 1.1, COOLING: 0.3, STOP_OPEN: 0.7, STOP_CLOSE: 0.7}
PMV_TARGET = {HEATING: -0.5, COOLING: 0.5, STOP_OPEN: 0.0, STOP_CLOSE: 0.0}


def v_hum(mode, rad_h, rad_c):
    if mode == HEATING:
        return 0.0 if rad_h else 0.2
    if mode == COOLING:
        return 0.0 if rad_c else 0.2
    return 0.1 if mode == STOP_OPEN else 0.0


def votes(theta_r, mrt, x):
    pa = pv_of_x(x)
    ot = (HR_HUM * mrt + HC_HUM * theta_r) / (HC_HUM + HR_HUM)
    return tuple(pmv(theta_r, ot, pa, c) for c in (1.1, 0.7, 0.3))


def next_mode(prev, demand, heavy, middle, light):
    if not demand > 0.0:
        return STOP_CLOSE
    if prev == HEATING:
        return HEATING if heavy <= 0.7 else (COOLING if light >= 0.7 else STOP_CLOSE)
    if prev == COOLING:
        return COOLING if light >= -0.7 else (HEATING if heavy <= -0.7 else STOP_CLOSE)
    if light >= 0.7:
        return COOLING
    if heavy <= -0.7:
        return HEATING
    if prev == STOP_OPEN:
        return STOP_CLOSE if middle <= 0.0 else STOP_OPEN
    return STOP_OPEN if middle >= 0.0 else STOP_CLOSE


# ---------------------------------------------------------------- response factors
ALPHA_WALL = [2.0000E-06, 7.9000E-06, 3.1205E-05, 1.2325E-04, 4.8687E-04, 1.9231E-03, 7.5964E-03, 3.0006E-02]
ALPHA_GROUND = [1.05970E-09, 4.23890E-09, 1.69560E-08, 6.78060E-08, 2.71280E-07, 1.08500E-06, 4.34170E-06,
                1.73610E-05, 6.94444E-05, 2.77778E-04]


def wall_rf(cs, rs, ground):
    """fixed-root response factors of a layer list (J/m2K, m2K/W), room side first; 900 s steps"""
    alpha = ALPHA_GROUND if ground else ALPHA_WALL
    laps = []
    for k in range(len(alpha)):
        if k == 0:
            laps.append(alpha[0] / math.sqrt(alpha[1] / alpha[0]))
        else:
            laps.append(alpha[k] / math.sqrt(alpha[k] / alpha[k - 1]))
        laps.append(alpha[k])
    rsum = sum(rs)
    ga, gt = [], []
    for s in laps:
        m = np.eye(2)
        for c, r in zip(cs, rs):
            if abs(c) < 0.001:
                f = np.array([[1.0, r], [0.0, 1.0]])
            else:
                z = math.sqrt(r * c * s)
                f = np.array([[math.cosh(z), r / z * math.sinh(z)], [z / r * math.sinh(z), math.cosh(z)]])
            m = m @ f
        ga.append(m[0, 1] / m[1, 1] - rsum)
        gt.append(1.0 / m[1, 1] - 1.0)
    F = np.array([[s / (s + a) for a in alpha] for s in laps])
    aa = np.linalg.lstsq(F, np.array(ga), rcond=None)[0]
    at = np.linalg.lstsq(F, np.array(gt), rcond=None)[0]
    x = np.array(alpha) * 900.0
    e = -np.expm1(-x)
    out = {
        'a0': rsum + float(np.sum(e / x * aa)), 't0': 1.0 + float(np.sum(e / x * at)),
        'a1': np.zeros(12), 't1': np.zeros(12), 'r': np.zeros(12),
    }
    n = len(alpha)
    out['a1'][:n] = -aa * e * e / x
    out['t1'][:n] = -at * e * e / x
    out['r'][:n] = np.exp(-x)
    return out


def spec_rf(spec):
    m = spec['method']
    if m == 'response_factor':
        return {'a0': spec['phi_a0'], 't0': spec['phi_t0'], 'a1': np.array(spec['phi_a1'], float),
                't1': np.array(spec['phi_t1'], float), 'r': np.array(spec['r'], float)}
    if spec['boundary_type'] in ('external_transparent_part', 'external_opaque_part'):
        return {'a0': 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance'], 't0': 1.0,
                'a1': np.zeros(12), 't1': np.zeros(12), 'r': np.zeros(12)}
    cs = [1000.0 * float(l['thermal_capacity']) for l in spec['layers']]
    rs = [float(l['thermal_resistance']) for l in spec['layers']]
    if spec['boundary_type'] == 'ground':
        return wall_rf(cs + [3300.0 * 3.0 * 1000.0], rs + [3.0], True)
    return wall_rf(cs + [0.0], rs + [float(spec['outside_heat_transfer_resistance'])], False)


def spec_resistance(spec):
    """steady resistance from the room-side surface to the rear temperature"""
    m = spec['method']
    if m == 'response_factor':
        a1, r = np.array(spec['phi_a1'], float), np.array(spec['r'], float)
        return spec['phi_a0'] + float(np.sum(a1 / (1.0 - r)))
    if spec['boundary_type'] in ('external_transparent_part', 'external_opaque_part'):
        return 1.0 / spec['u_value'] - spec['inside_heat_transfer_resistance']
    rs = sum(float(l['thermal_resistance']) for l in spec['layers'])
    return rs + (3.0 if spec['boundary_type'] == 'ground' else float(spec['outside_heat_transfer_resistance']))


def contractive(rf):
    """the wall's own recursion under a fixed environment never amplifies (nor rings strongly)"""
    a0, a1, r = rf['a0'], np.array(rf['a1']), np.array(rf['r'])
    n = len(a1)
    for h in (1.5, 5.0, 11.0):
        m = np.zeros((n + 1, n + 1))
        m[1:, 0] = a1
        m[1:, 1:] = np.diag(r)
        m[0] = -h / (1.0 + h * a0) * m[1:].sum(axis=0)
        e = np.linalg.eigvals(m)
        if np.abs(e).max() > 1.0 - 0.5 * (1.0 - r.max()) or e.real.min() < -0.4:
            return False
    return a0 > 0.0


# ---------------------------------------------------------------- radiation
def form_h_r(areas):
    """radiative coefficients of the surfaces of one room (Nagata's form factors)"""
    a = np.array(areas, float)
    r = a / a.sum()
    g = lambda f: float(np.sum(0.5 * (1.0 - np.sqrt(np.maximum(0.0, 1.0 - 4.0 * r / f)))) - 1.0)
    lo = 4.0 * r.max()
    if g(lo) < 0:
        raise ValueError('geometry outside the model')
    hi = lo
    while g(hi) > 0:
        hi *= 2.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if g(mid) > 0:
            lo = mid
        else:
            hi = mid
    f = 0.5 * (1.0 - np.sqrt(np.maximum(0.0, 1.0 - 4.0 * r / lo)))
    return EPS / (1.0 - EPS * f) * 4.0 * SGM * (273.15 + 20.0) ** 3.0


def geometry_ok(areas):
    a = np.array(areas, float)
    r = a / a.sum()
    lo = 4.0 * r.max()
    return float(np.sum(0.5 * (1.0 - np.sqrt(np.maximum(0.0, 1.0 - 4.0 * r / lo)))) - 1.0) > 0.02


class Model:
    def __init__(self, house, series, variants=ASIS, dt=900.0, h_r=None, rf=None):
        self.var = dict(variants)
        self.dt = dt
        sp, bs = house['spaces'], house['boundaries']
        self.I, self.J = len(sp), len(bs)
        self.house, self.s = house, series
        self.N = len(series['theta_o'])
        self.room = np.array([b['connected_space_id'] for b in bs])
        self.A = np.array([float(b['area']) for b in bs])
        self.hc = np.array([float(b['h_c']) for b in bs])
        self.hr = np.zeros(self.J)
        if h_r is None:
            for i in range(self.I):
                m = self.room == i
                self.hr[m] = form_h_r(self.A[m])
        else:
            self.hr = np.array(h_r, float)
        self.fm = np.zeros((self.I, self.J))
        for i in range(self.I):
            m = self.room == i
            w = self.A[m] * self.hr[m]
            self.fm[i, m] = w / w.sum()
        self.fh = np.zeros((self.I, self.J))
        for j, b in enumerate(bs):
            self.fh[self.room[j], j] = b['f_mrt_hum']
        self.rf = rf if rf is not None else [spec_rf(b['spec']) for b in bs]
        self.a0 = np.array([float(r['a0']) for r in self.rf])
        self.t0 = np.array([float(r['t0']) for r in self.rf])
        self.a1 = np.array([r['a1'] for r in self.rf], float)
        self.t1 = np.array([r['t1'] for r in self.rf], float)
        self.rr = np.array([r['r'] for r in self.rf], float)
        self.ko = np.array([float(b['k_outside']) for b in bs])
        self.link = [None if b['k_inside'] is None else (int(b['k_inside']['id']), float(b['k_inside']['coef']))
                     for b in bs]
        self.ground = np.array([b['is_ground'] == 'true' for b in bs])
        self.flr = np.array([float(b['flr']) for b in bs])
        self.absorbs = np.array([b['is_solar_absorbed'] == 'True' for b in bs])
        self.V = np.array([float(s['volume']) for s in sp])
        self.beta = np.array([float(s['beta']) for s in sp])
        self.vm = np.array([float(s['ventilation']['mechanical']) for s in sp])
        self.vi = np.array([s['ventilation']['next_spaces'] for s in sp], float)
        self.vn = np.array([float(s['ventilation']['natural']) for s in sp])
        fu = [s['furniture'] for s in sp]
        self.Cf = np.array([float(f['heat_capacity']) for f in fu])
        self.Gf = np.array([float(f['heat_cond']) for f in fu])
        self.Cx = np.array([float(f['moisture_capacity']) for f in fu])
        self.Gx = np.array([float(f['moisture_cond']) for f in fu])
        eq = [s['equipment'] for s in sp]
        self.rad_h = [bool(e['heating']['radiative']['installed']) for e in eq]
        self.rad_c = [bool(e['cooling']['radiative']['installed']) for e in eq]
        self.cap_h = [float(e['heating']['radiative']['max_capacity']) if r else 0.0 for e, r in zip(eq, self.rad_h)]
        self.cap_c = [float(e['cooling']['radiative']['max_capacity']) if r else 0.0 for e, r in zip(eq, self.rad_c)]
        self.coil = [e['cooling']['convective'] for e in eq]
        b = house['building']
        self.inf = (({1: 0.022, 2: 0.020}[b['story']]) * b['c_value'],
                    {'balanced': {1: 0.0, 2: 0.0}, 'positive': {1: 0.26, 2: 0.14},
                     'negative': {1: 0.28, 2: 0.13}}[b['inside_pressure']][b['story']])
        self.theta_ave = float(np.average(series['theta_o']))
        # absorbed sunlight per m2 of surface and per W transmitted into the room
        self.solw = np.zeros(self.J)
        for i in range(self.I):
            m = (self.room == i) & self.absorbs
            if m.any():
                self.solw[m] = 0.5 / self.A[m].sum()

    # ------------------------------------------------------------ initial state
    def initial(self):
        I, J = self.I, self.J
        x0 = x_of_pv(p_vs(20.0) * 0.4)
        ta = np.zeros((J, 12))
        tt = np.zeros((J, 12))
        g = self.ground
        tt[g] = self.t1[g] / (1.0 - self.rr[g]) * self.theta_ave
        return {'mode': [STOP_CLOSE] * I, 'tr': np.full(I, 15.0), 'mrt': np.full(I, 15.0), 'x': np.full(I, x0),
                'tf': np.full(I, 15.0), 'xf': np.full(I, x0), 'tei': np.full(J, 15.0), 'q': np.zeros(J),
                'ta': ta, 'tt': tt}

    def ground_run_up(self, st, n0, n1):
        """ground boundaries alone, driven by outdoor air, over a constant deep temperature"""
        h = self.hc + self.hr
        ta, q = st['ta'].copy(), st['q'].copy()
        g = self.ground
        for n in range(n0, n1):
            to = self.s['theta_o'][n]
            ta[g] = self.a1[g] * q[g][:, None] + self.rr[g] * ta[g]
            # q = h (to - ts) ; ts = a0 q + sum(ta) + ave
            c = ta[g].sum(axis=1) + self.theta_ave
            q[g] = h[g] * (to - c) / (1.0 + h[g] * self.a0[g])
        st = dict(st)
        st['ta'], st['q'] = ta, q
        return st

    # ------------------------------------------------------------ pieces used by the oracles
    def leak(self, tr_prev, n):
        ave = float(np.sum(self.V * tr_prev) / np.sum(self.V))
        a, b = self.inf
        return max(a * math.sqrt(abs(ave - self.s['theta_o'][n])) - b, 0.0) * self.V / 3600.0

    def q_hum(self, tr_prev, n):
        per = np.minimum(63.0 - 4.0 * (tr_prev - 24.0), 119.0)
        return per * self.s['occ'][:, n], (119.0 - per) / L_WTR * self.s['occ'][:, n]

    def v_ac(self, i, q):
        c = self.coil[i]
        return (c['v_min'] + (c['v_max'] - c['v_min']) / (c['q_max'] - c['q_min']) * (q - c['q_min'])) / 60.0

    # ------------------------------------------------------------ one step
    def step(self, st, n, mode=None):
        I, J, dt, s = self.I, self.J, self.dt, self.s
        room, A, hc, hr = self.room, self.A, self.hc, self.hr
        hi = hc + hr
        out = {}
        given, mode, target, vmargin = mode, [], [], []
        for i in range(I):
            hv, md, lt = votes(st['tr'][i], st['mrt'][i], st['x'][i])
            m = next_mode(st['mode'][i], s['ac'][i, n], hv, md, lt) if given is None else int(given[i])
            vmargin.append(min(abs(abs(hv) - 0.7), abs(abs(lt) - 0.7), abs(md)))
            mode.append(m)
            target.append(ot_for_pmv(PMV_TARGET[m], pv_of_x(st['x'][i]), CLO[m]) if m in (HEATING, COOLING) else 0.0)
        dstrb = self.ko * s['theta_sol'][:, n]
        rear = dstrb.copy()
        for j, l in enumerate(self.link):
            if l is not None:
                rear[j] += l[1] * st['tei'][l[0]]
        qh, xh = self.q_hum(st['tr'], n)
        leak = self.leak(st['tr'], n)
        ta = self.a1 * st['q'][:, None] + self.rr * st['ta']
        tt = self.t1 * rear[:, None] + self.rr * st['tt']
        mem = ta.sum(axis=1) + tt.sum(axis=1)
        vnat = np.array([self.vn[i] if mode[i] == STOP_OPEN else 0.0 for i in range(I)])
        vout = leak + self.vm + s['local_vent'][:, n] + vnat
        qsol = self.solw * s['qtrs'][room, n]
        qsf = 0.5 * s['qtrs'][:, n]

        # unknown layout
        oTR, oTF, oTS, oTE, oQ, oOT, oLC, oLR = 0, I, 2 * I, 2 * I + J, 2 * I + 2 * J, 2 * I + 3 * J, 3 * I + 3 * J, 4 * I + 3 * J
        M = 5 * I + 3 * J
        E = np.zeros((M, M))
        R = np.zeros(M)
        row = 0
        for j in range(J):                       # environment temperature seen by the surface
            i = room[j]
            E[row, oTE + j] = hi[j]
            E[row, oTR + i] -= hc[j]
            E[row, oTS:oTS + J] -= hr[j] * self.fm[i]
            E[row, oLR + i] -= self.flr[j] * (1.0 - self.beta[i]) / A[j]
            R[row] = qsol[j]
            row += 1
        for j in range(J):                       # flux into the wall
            E[row, oQ + j] = 1.0
            E[row, oTE + j] = -hi[j]
            E[row, oTS + j] = hi[j]
            row += 1
        for j in range(J):                       # conduction with memory
            E[row, oTS + j] += 1.0
            E[row, oQ + j] -= self.a0[j]
            R[row] = mem[j] + self.t0[j] * dstrb[j]
            l = self.link[j]
            if l is not None:
                k, c = l
                if self.var['rear'] == 'true' or k == j:
                    E[row, oTE + k] -= self.t0[j] * c
                else:
                    w = self.t0[j] * c / hi[j]
                    E[row, oTR + room[k]] -= w * hc[j]
                    E[row, oTS:oTS + J] -= w * hr[j] * self.fm[room[k]]
                    E[row, oLR + room[k]] -= w * self.flr[k] * (1.0 - self.beta[room[k]]) / A[j]
                    R[row] += w * qsol[k]
            row += 1
        for i in range(I):                       # room air
            E[row, oTR + i] += C_AIR * RHO * self.V[i] / dt + C_AIR * RHO * vout[i] + self.Gf[i]
            E[row, oTF + i] -= self.Gf[i]
            E[row, oLC + i] -= 1.0
            E[row, oLR + i] -= self.beta[i]
            R[row] = C_AIR * RHO * self.V[i] / dt * st['tr'][i] + C_AIR * RHO * vout[i] * s['theta_o'][n] \
                + s['q_gen'][i, n] + qh[i]
            for j in range(J):
                if room[j] == i:
                    E[row, oTR + i] += A[j] * hc[j]
                    E[row, oTS + j] -= A[j] * hc[j]
            for k in range(I):
                v = C_AIR * RHO * self.vi[i, k]
                if self.var['vent'] == 'true':
                    E[row, oTR + i] += v
                    E[row, oTR + k] -= v
                else:
                    E[row, oTR + k] += v
            row += 1
        for i in range(I):                       # furniture
            E[row, oTF + i] = self.Cf[i] / dt + self.Gf[i]
            E[row, oTR + i] = -self.Gf[i]
            R[row] = self.Cf[i] / dt * st['tf'][i] + qsf[i]
            row += 1
        kc, kr = HC_HUM / (HC_HUM + HR_HUM), HR_HUM / (HC_HUM + HR_HUM)
        for i in range(I):                       # operative temperature
            E[row, oOT + i] = 1.0
            E[row, oTR + i] = -kc
            E[row, oTS:oTS + J] -= kr * self.fh[i]
            row += 1
        base = row

        def solve(ctrl):
            """ctrl[i] = ('off',) | ('conv', ot) | ('rad', ot) | ('cap', ot, lr)"""
            EE, RR = E.copy(), R.copy()
            r = base
            for i in range(I):
                c = ctrl[i]
                if c[0] == 'off':
                    EE[r, oLC + i] = 1.0
                    EE[r + 1, oLR + i] = 1.0
                elif c[0] == 'conv':
                    EE[r, oOT + i] = 1.0
                    RR[r] = c[1]
                    EE[r + 1, oLR + i] = 1.0
                elif c[0] == 'rad':
                    EE[r, oOT + i] = 1.0
                    RR[r] = c[1]
                    EE[r + 1, oLC + i] = 1.0
                else:
                    EE[r, oOT + i] = 1.0
                    RR[r] = c[1]
                    EE[r + 1, oLR + i] = 1.0
                    RR[r + 1] = c[2]
                r += 2
            return np.linalg.solve(EE, RR)

        nat = solve([('off',)] * I)[oOT:oOT + I]
        ctrl = []
        margins = []
        for i in range(I):
            d = s['ac'][i, n]
            on = (mode[i] == HEATING and nat[i] < target[i]) or (mode[i] == COOLING and nat[i] > target[i])
            if mode[i] in (HEATING, COOLING):
                margins.append(abs(nat[i] - target[i]))
            if not on:
                ctrl.append(('off',))
            else:
                t = d * target[i] + (1.0 - d) * nat[i]
                rad = self.rad_h[i] if mode[i] == HEATING else self.rad_c[i]
                ctrl.append(('rad' if rad else 'conv', t))
        v = solve(ctrl)
        rounds, dried = 0, 0
        for _ in range(I):
            again = False
            for i in range(I):
                if ctrl[i][0] == 'rad':
                    lr = v[oLR + i]
                    margins.append(abs(lr - self.cap_h[i]) / max(1.0, abs(self.cap_h[i])))
                    margins.append(abs(lr + self.cap_c[i]) / max(1.0, abs(self.cap_c[i])))
                    if lr > self.cap_h[i]:
                        ctrl[i] = ('cap', ctrl[i][1], self.cap_h[i])
                        again = True
                    elif lr < -self.cap_c[i]:
                        ctrl[i] = ('cap', ctrl[i][1], -self.cap_c[i])
                        again = True
            if not again:
                break
            rounds += 1
            v = solve(ctrl)
        tr, tf, ts, te, q = v[:I], v[oTF:oTF + I], v[oTS:oTS + J], v[oTE:oTE + J], v[oQ:oQ + J]
        ot, lc, lr = v[oOT:oOT + I], v[oLC:oLC + I], v[oLR:oLR + I]

        # moisture
        B = np.zeros((2 * I, 2 * I))
        Rx = np.zeros(2 * I)
        for i in range(I):
            B[i, i] += RHO * self.V[i] / dt + RHO * vout[i] + self.Gx[i]
            B[i, I + i] -= self.Gx[i]
            Rx[i] = RHO * self.V[i] / dt * st['x'][i] + RHO * vout[i] * s['x_o'][n] + s['x_gen'][i, n] + xh[i]
            for k in range(I):
                w = RHO * self.vi[i, k]
                if self.var['vent'] == 'true':
                    B[i, i] += w
                    B[i, k] -= w
                else:
                    B[i, k] -= w
            B[I + i, I + i] = self.Cx[i] / dt + self.Gx[i]
            B[I + i, i] = -self.Gx[i]
            Rx[I + i] = self.Cx[i] / dt * st['xf'][i]
        xnd = np.linalg.solve(B, Rx)[:I]
        coil = [None] * I                     # a coil works where the air it meets is damper than its surface
        for i in range(I):
            ql = -lc[i]
            if ql > 1.0e-3:
                v_ac = self.v_ac(i, ql) * 0.8
                xe = x_of_pv(p_vs(tr[i] - ql / (C_AIR * RHO * v_ac)))
                margins.append(abs(xe - xnd[i]) / 1e-3)
                if xe <= xnd[i]:
                    coil[i] = (v_ac, xe)
        while True:
            on = [i for i in range(I) if coil[i] is not None]
            B2, R2 = B.copy(), Rx.copy()
            for i in on:
                B2[i, i] += RHO * coil[i][0]
                R2[i] += RHO * coil[i][0] * coil[i][1]
            xx = np.linalg.solve(B2, R2)
            dry = [i for i in on if xx[i] < coil[i][1]]
            if not dry:
                break
            dried += 1
            for i in dry:                     # the neighbours' coils dried this room: its own surface stays dry
                coil[i] = None
        x, xf = xx[:I], xx[I:]
        lcl = np.array([0.0 if c is None else -RHO * c[0] * (x[i] - c[1]) * L_WTR for i, c in enumerate(coil)])
        mrt = self.fh @ ts
        out.update(mode=mode, target=np.array(target), tr=tr, tf=tf, ts=ts, tei=te, q=q, ot=ot, lc=lc, lr=lr, x=x, xf=xf,
                   lcl=lcl, mrt=mrt, rear=rear, leak=leak, vnat=vnat, q_hum=qh, x_hum=xh, natural=nat, ctrl=ctrl,
                   coil=coil, margins=margins, vmargin=vmargin, vout=vout, xnd=xnd, dstrb=dstrb, mem=mem, qsol=qsol, rounds=rounds, dried=dried)
        ns = {'mode': mode, 'tr': tr, 'mrt': mrt, 'x': x, 'tf': tf, 'xf': xf, 'tei': te, 'q': q, 'ta': ta, 'tt': tt}
        return ns, out
