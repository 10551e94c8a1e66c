"""The package's public calls as operations of a history: each builds its arguments from a few plain parameters, so that the
same call can be made in a history and in a fresh process."""
import copy
import enum
import hashlib
import importlib
import os
import random
import types

import numpy as np
import pandas as pd

from . import house as H
from . import pipe
from . import simfs
from . import stages as S


def M(name):
    return importlib.import_module('heat_load_calc.' + name)


# ------------------------------------------------------------------------------ canonical text of any value
def canon(x, memo=None):
    """a hash that is equal exactly for equal values (bit for bit), whatever containers they sit in"""
    h = hashlib.sha256()
    _feed(h, x, {} if memo is None else memo)
    return h.hexdigest()


def _feed(h, x, memo):
    def put(*s):
        for t in s:
            h.update(t if isinstance(t, bytes) else str(t).encode('utf-8', 'surrogatepass'))
            h.update(b';')
    if x is None or isinstance(x, (bool, int, str, bytes, np.bool_)):
        return put('v', repr(x))
    if isinstance(x, (float, np.floating)):
        return put('f', repr(float(x)), type(x).__name__ if not isinstance(x, np.floating) else 'float')
    if isinstance(x, np.integer):
        return put('v', repr(int(x)))
    if isinstance(x, enum.Enum):
        return put('e', type(x).__name__, x.name)
    if isinstance(x, pd.DataFrame):
        return put('df', simfs.frame_digest(x))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, types.MethodType)):
        return put('fn', getattr(x, '__name__', ''))
    if id(x) in memo:
        return put('seen', memo[id(x)])
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            put('ao', x.shape)
            for v in x.ravel():
                _feed(h, v, memo)
            return
        return put('a', x.dtype, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        put('d', len(x))
        for k in sorted(x, key=repr):
            put(repr(k))
            _feed(h, x[k], memo)
        return
    if isinstance(x, (list, tuple)):
        put('l' if isinstance(x, list) else 't', len(x))
        for v in x:
            _feed(h, v, memo)
        return
    if isinstance(x, (set, frozenset)):
        return put('s', sorted(map(repr, x)))
    memo[id(x)] = len(memo)
    put('o', type(x).__name__)
    d = getattr(x, '__dict__', None)
    if d is None:
        d = {k: getattr(x, k) for k in getattr(x, '__slots__', ()) if hasattr(x, k)}
    _feed(h, d, memo)


def spoil(x, seen=None):
    """what a careless caller may do to a value it was given: change everything changeable in place"""
    seen = set() if seen is None else seen
    if id(x) in seen or isinstance(x, (enum.Enum, type, types.FunctionType, types.ModuleType, str, bytes, bool, int, float, type(None))):
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                spoil(v, seen)
        elif x.flags.writeable:
            x[...] = -777 if x.dtype.kind in 'if' else False
    elif isinstance(x, pd.DataFrame):
        for k in range(x.shape[1]):
            v = x.iloc[:, k].to_numpy()
            if v.dtype.kind in 'if' and v.flags.writeable:
                v[...] = -777
        for c in list(x.columns)[:3]:
            x[c] = -777.0
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen)
        x['__spoilt__'] = -777.0
        for k in list(x):
            if isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = -777.0
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        for k in range(len(x)):
            if isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = -777.0
        x.append(-777.0)
    elif isinstance(x, (tuple, set, frozenset)):
        for v in x:
            spoil(v, seen)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('heat_load_calc'):
        for k, v in list(vars(x).items()):
            spoil(v, seen)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                try:
                    setattr(x, k, -777.0)
                except Exception:
                    pass


def refill(old, new):
    """the caller's old argument object with the new contents (the object a caller edits in place and passes again)"""
    if type(old) is not type(new):
        return new
    if isinstance(old, dict):
        keep = {k: refill(old[k], v) if k in old else v for k, v in new.items()}
        old.clear()
        old.update(keep)
        return old
    if isinstance(old, list):
        keep = [refill(old[k], v) if k < len(old) else v for k, v in enumerate(new)]
        old[:] = keep
        return old
    if isinstance(old, tuple):
        return tuple(refill(a, b) for a, b in zip(old, new)) if len(old) == len(new) else new
    if isinstance(old, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.dtype != object and old.flags.writeable:
        old[...] = new
        return old
    return new


def damage(x, rng):
    """the same arguments with one thing wrong"""
    spots = []

    def walk(v):
        if isinstance(v, dict):
            spots.extend((v, k) for k in v)
            for w in v.values():
                walk(w)
        elif isinstance(v, list):
            spots.extend((v, k) for k in range(len(v)))
            for w in v:
                walk(w)
    walk(x)
    bad = rng.choice([None, 'bad', -1.0, float('nan'), [], {}])
    if not spots:
        return tuple(bad if k == 0 else v for k, v in enumerate(x)) if isinstance(x, tuple) and x else x
    c, k = rng.choice(spots)
    if rng.random() < 0.5:
        del c[k]
    else:
        c[k] = bad
    return x


def tweak(x, rng):
    """the same arguments with one number a little different, or with the same numbers in another order"""
    spots, orders = [], []

    def num(v):
        return isinstance(v, (float, np.floating)) and np.isfinite(v)

    def walk(v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, list) and len(v) > 1 and (all(num(w) for w in v) or all(isinstance(w, dict) and 'thermal_resistance' in w for w in v)):
            orders.append(v)
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.ndim == 1 and v.size > 1:
            orders.append(v)
        if isinstance(v, (dict, list)):
            for k in (sorted(v, key=repr) if isinstance(v, dict) else range(len(v))):
                if num(v[k]):
                    spots.append((v, k))
                else:
                    walk(v[k], seen)
        elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
            spots.append((v, tuple(rng.randrange(n) for n in v.shape)))
        elif isinstance(v, tuple):
            for w in v:
                walk(w, seen)
    walk(x, set())
    if orders and rng.random() < 0.4:
        v = rng.choice(orders)
        v[:] = v[::-1].copy()
    elif spots:
        c, k = rng.choice(spots)
        c[k] = c[k] * 1.01
    return x


# ------------------------------------------------------------------------------ the calls
OPS = {}


def op(weight=1, dirs=False, twice=False):
    """twice: the call asks one object the same question twice and returns both answers"""
    def deco(cls):
        OPS[cls.__name__] = cls
        cls.weight, cls.dirs, cls.twice = weight, dirs, twice
        return cls
    return deco


def sub(seed, *t):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, t))))


def seeded(rng, **kw):
    return dict({'s': rng.randrange(1 << 20)}, **kw)


def arr(r, n, lo, hi, col=False):
    a = np.array([r.uniform(lo, hi) for _ in range(n)])
    return a.reshape(-1, 1) if col else a


@op(6, dirs=True)
class stage:
    """a whole stage in a directory of its own kind; the directory is the same for every call of the history"""
    @staticmethod
    def gen(rng):
        return {'cfg': S.gen(rng, rng.choice(['core', 'core', 'core', 'house', 'weather', 'json', 'house']))}

    @staticmethod
    def build(p, env):
        c = p['cfg']
        k = c['stage']
        fill(p, env.inp)
        if k == 'weather':
            return M('weather.weather').make_weather, (), {'region': c['region'], 'output_data_dir': env.out, 'csv_output': c['interval'] != '1h',
                                                          'interval': c['interval']}
        if k in ('house', 'json'):
            f = M('initializer.initializer')
            return (f.make_house if k == 'house' else f.make_house_for_test), (), {
                'd': copy.deepcopy(c['spec']), 'input_data_dir': env.inp, 'output_data_dir': env.out}
        return core, (), dict(c['run'], input_data_dir=env.inp, output_data_dir=env.out, show_simple_result=True, show_detail_result=True)


def core(**kw):
    from heat_load_calc.core import core as c
    import inspect
    names = inspect.signature(c.calc).parameters
    return c.calc(**{k: v for k, v in kw.items() if k in names})


def fill(p, d):
    """the hand-over files of a load calculation, from the parameters alone"""
    c = p['cfg']
    roll = c.get('roll', 0)
    if c['stage'] in ('house', 'json'):
        r = c['spec']['common']['region']
        src = _weather[r]
        if roll:                              # another year at the same place: the same rows, begun elsewhere; not a byte longer
            rows = [x.split(b',', 1) for x in src.splitlines()]
            k = 1 + roll % (len(rows) - 1)
            src = b'\n'.join(b','.join(x) for x in [rows[0]] + [[x[0], y[1]] for x, y in zip(rows[1:], rows[k:] + rows[1:k])]) + b'\n'
        with open(os.path.join(d, 'weather.csv'), 'wb') as f:
            f.write(src)
    elif c['stage'] == 'core':
        s = H.expand(c)
        if roll:
            s = {k: np.roll(v, roll, -1) for k, v in s.items()}
        H.write(d, c['house'], s)
    for f in os.listdir(d):                   # all written within one second
        with simfs.real_open(os.path.join(d, f), 'rb') as g:
            t = 1_700_000_000_000_000_000 + int(hashlib.sha256(g.read()).hexdigest()[:12], 16) % 10 ** 9
        os.utime(os.path.join(d, f), ns=(t, t))


_weather = {}


def prefetch(steps, ctx):
    """weather files of the regions the history needs, made in processes of their own"""
    for st in steps:
        c = st['p'].get('cfg')
        if c and c['stage'] in ('house', 'json'):
            r = c['spec']['common']['region']
            if r not in _weather:
                d = ctx.scratch('region%d' % r)
                simfs.process(ctx, lambda: simfs.frame_digest(pipe.make_weather(r, d)))
                with simfs.real_open(os.path.join(d, 'weather.csv'), 'rb') as f:
                    _weather[r] = f.read()


# ---- specification conversion
def index_spec(p):
    r = sub(p['s'], 'index')
    ht = 'detached'                       # the conversion refuses every attached house (see DESIGN.md)
    a = round(r.uniform(90.0, 140.0), 1) if ht == 'detached' else round(r.uniform(60.0, 100.0), 1)
    return {'common': {'region': r.randint(1, 7), 'house_type': ht, 'main_occupant_room_floor_area': round(a * r.uniform(0.2, 0.4), 1),
                       'other_occupant_room_floor_area': round(a * r.uniform(0.2, 0.5), 1), 'total_floor_area': a},
            'envelope': {'input_method': 'index', 'total_area': round(a * (2.6 if ht == 'detached' else 3.2) * r.uniform(0.97, 1.1), 2),
                         'indices': {'u_a': round(r.uniform(0.4, 0.9), 2), 'eta_a_h': round(r.uniform(1.5, 3.0), 2), 'eta_a_c': round(r.uniform(1.0, 2.5), 2)}}}


def hand_layer(r, k):
    d = {'name': 'layer%d' % k, 'thickness': round(r.uniform(0.01, 0.2), 3), 'volumetric_specific_heat': round(r.uniform(8.0, 2000.0), 1)}
    if r.random() < 0.5:
        return dict(d, heat_resistance_input_method='conductivity', thermal_conductivity=round(r.uniform(0.03, 1.6), 3))
    return dict(d, heat_resistance_input_method='resistance', thermal_resistance=round(r.uniform(0.05, 2.0), 3))


def hand_layers(r):
    return [hand_layer(r, k) for k in range(r.randint(1, 3))]


def sunshade(r, opaque):
    x = r.random()
    if opaque or x < 0.6:
        return {'is_defined': True, 'input': 'not_input'}
    return {'is_defined': True, 'input': 'simple', 'depth': round(r.uniform(0.1, 1.5), 2), 'd_h': round(r.uniform(0.5, 2.0), 2), 'd_e': round(r.uniform(0.0, 0.5), 2)}


SPACES = ('main_occupant_room', 'other_occupant_room', 'non_occupant_room')


def part_spec(r):
    s = r.choice(['wood', 'rc', 'steel', 'other'])
    if s == 'other':
        return {'structure': 'other', 'u_value_other': round(r.uniform(0.2, 2.0), 2), 'weight': r.choice(['light', 'heavy'])}
    n = r.randint(1, 2)
    ratios = [1.0] if n == 1 else [0.75, 0.25]
    d = {'structure': s, 'r_srf_in': 0.11, 'r_srf_ex': 0.04,
         'parts': [{'name': 'part%d' % k, 'part_area_ratio': ratios[k], 'layers': hand_layers(r)} for k in range(n)]}
    if s == 'steel':
        d['u_r_value_steel'] = round(r.uniform(0.0, 0.3), 2)
    return d


def envelope(p, spaces=True):
    r = sub(p['s'], 'envelope')
    sp = (lambda: r.choice(SPACES)) if spaces else (lambda: 'undefined')
    dirs = ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se']
    return {
        'input_method': 'detail_without_room_usage',
        'general_parts': [{'name': 'part%d' % k, 'general_part_type': t, 'next_space': 'outdoor', 'direction': d, 'area': round(r.uniform(5.0, 60.0), 2),
                           'space_type': sp(), 'spec': part_spec(r), 'sunshade': sunshade(r, True)}
                          for k, (t, d) in enumerate([('roof', 'top'), ('wall', r.choice(dirs)), ('wall', r.choice(dirs)), ('floor', 'bottom')])],
        'windows': [{'name': 'window%d' % k, 'next_space': 'outdoor', 'direction': r.choice(dirs), 'area': round(r.uniform(1.0, 8.0), 2), 'space_type': sp(),
                     'sunshade': sunshade(r, False), 'spec': {'u_value': round(r.uniform(1.5, 6.5), 2), 'eta_d_h_value': 0.6, 'eta_d_c_value': 0.5,
                                                            'glass_type': 'single', 'flame_type': 'metal'}} for k in range(r.randint(1, 3))],
        'doors': [{'name': 'door', 'next_space': 'outdoor', 'direction': r.choice(dirs), 'area': 1.8, 'space_type': sp(), 'sunshade': sunshade(r, True),
                   'spec': {'u_value': round(r.uniform(1.5, 4.65), 2)}}],
        'earthfloor_perimeters': [{'name': 'perimeter', 'next_space': 'outdoor', 'length': round(r.uniform(2.0, 15.0), 2), 'space_type': sp(),
                                   'spec': {'psi_value': round(r.uniform(0.5, 1.8), 2)}}],
        'earthfloor_centers': [{'name': 'center', 'area': round(r.uniform(2.0, 30.0), 2), 'space_type': sp() if spaces else 'undefined',
                                'spec': {'layers': hand_layers(r)}}],
        'heat_bridges': [{'name': 'bridge', 'next_spaces': ['outdoor', r.choice(['outdoor', 'open_underfloor'])], 'directions': ['s', r.choice(['top', 'e'])],
                          'length': round(r.uniform(1.0, 20.0), 2), 'space_type': sp(), 'spec': {'psi_value': 0.3}}]}


@op(3)
class convert_index:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return M('convert.convert_indices_to_lv2_info').convert_spec, (), {'d': index_spec(p)}


@op(2)
class convert_lv2:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return M('convert.convert_lv2_to_lv3').convert_spec, (), {'common': index_spec(p)['common'], 'envelope': envelope(p, False)}


@op(2)
class convert_lv3:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return M('convert.convert_lv3_to_lv4').convert_spec, (), {'common': index_spec(p)['common'], 'envelope': envelope(p)}


def chain(common, envelope):
    a = M('convert.convert_lv2_to_lv3').convert_spec(common, envelope)
    return a, M('convert.convert_lv3_to_lv4').convert_spec(common, a)


@op(2)
class convert_chain:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return chain, (), {'common': index_spec(p)['common'], 'envelope': envelope(p, False)}


@op(2)
class check_indices:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return M('convert.check_ua_a_eta_a').check_u_a_and_eta_a, (), {'region': p['s'] % 7 + 1, 'model_house_envelope': envelope(p)}


def shape(**kw):
    m = M('convert.model_house')
    a = m.calc_area(**kw)
    return a, m.get_model_house_no_spec(**a)


@op(1)
class model_house:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        d = index_spec(p)
        ht = d['common']['house_type']
        r = sub(p['s'], 'shape')
        f, b = r.choice([('floor', 'base'), ('floor', 'floor'), ('base', 'base'), ('floor', 'not_exist')]) if ht == 'detached' else (None, None)
        return shape, (), {'house_type': ht, 'a_f_total': d['common']['total_floor_area'], 'r_open': 0.1, 'floor_ins_type': f, 'bath_ins_type': b,
                           'a_env_input': r.choice([None, d['envelope']['total_area']])}


def parts_spec(region, u, h, c, shape):
    g, w, d, e, x = shape
    return M('convert.get_u_psi_eta_from_u_a_and_eta_a').calc_parts_spec(
        region=region, u_a_target=u, eta_a_h_target=h, eta_a_c_target=c, gps=g, ds=d, ws=w, eps=e, ecs=x)


@op(1)
class parts_from_indices:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        d = index_spec(p)
        ht = d['common']['house_type']
        f, b = ('floor', 'base') if ht == 'detached' else (None, None)
        a = shape(house_type=ht, a_f_total=d['common']['total_floor_area'], r_open=0.1, floor_ins_type=f, bath_ins_type=b,
                  a_env_input=d['envelope']['total_area'])[1]
        i = d['envelope']['indices']
        return parts_spec, (), {'region': d['common']['region'], 'u': i['u_a'], 'h': i['eta_a_h'], 'c': i['eta_a_c'], 'shape': a}


def part_dicts(d, region):
    e = M('convert.ees_house')
    g = e.GeneralPart.make_general_part(d)

    def ask():
        return g.get_as_dict(), g.get_u(), g.get_q(region), g.get_m(region, 'heating'), g.make_initializer_dict(0.0, region)
    return copy.deepcopy(ask()), ask()


@op(2, twice=True)
class part_dict:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return part_dicts, (), {'d': envelope(p)['general_parts'][p['s'] % 4], 'region': p['s'] % 7 + 1}


# ---- weather and sun
@op(2)
class weather_frame:
    @staticmethod
    def gen(rng):
        return {'region': rng.randint(1, 8), 'interval': rng.choice(['15m', '30m', '1h'])}

    @staticmethod
    def build(p, env):
        return M('weather.weather').make_weather, (), dict(p)


@op(2)
class weather_data:
    gen = weather_frame.gen

    @staticmethod
    def build(p, env):
        return M('weather.weather_data').load, (p['region'], p['interval']), {}


def sun(region, interval):
    phi, lam = M('weather.region_location').get_phi_loc_and_lambda_loc(region=region)
    return (phi, lam) + tuple(M('weather.solar_position').calc_solar_position(phi_loc=phi, lambda_loc=lam, interval=interval))


@op(1)
class solar_position:
    gen = weather_frame.gen

    @staticmethod
    def build(p, env):
        return sun, (p['region'], p['interval']), {}


# ---- house initialisation
def weather_series(s):
    g = np.random.default_rng(s)
    n = 96
    return {'theta_o_ns': g.uniform(-5, 35, n), 'i_dn_ns': g.uniform(0, 800, n), 'i_sky_ns': g.uniform(0, 200, n), 'r_n_ns': g.uniform(0, 100, n),
            'a_sun_ns': g.uniform(-3, 3, n), 'h_sun_ns': g.uniform(-0.5, 1.4, n)}


def boundary_dicts(p):
    return pipe.gen_spec(sub(p['s'], 'bdr'), rooms=2)['boundaries']


@op(2)
class boundary_simple:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        bs = boundary_dicts(p)
        return M('initializer.boundary_simple').get_boundary_simple, (), dict(weather_series(p['s']), b=bs[p['s'] % len(bs)])


def sunlit(b, w):
    t, o = M('initializer.transmission_solar_radiation'), M('initializer.outside_eqv_temp')
    s = M('initializer.solar_shading').SolarShading.create(b=b)
    tr = t.TransmissionSolarRadiation.create(d=b, solar_shading_part=s)
    ot = o.OutsideEqvTemp.create(b)
    q = {k: w[k] for k in ('a_sun_ns', 'h_sun_ns', 'i_dn_ns', 'i_sky_ns')}
    out = [ot.get_theta_o_sol_i_j_ns(**w), tr.get_qgt(**q), s.get_f_ss_d_j_ns(w['h_sun_ns'], w['a_sun_ns'])]
    return copy.deepcopy(out), [ot.get_theta_o_sol_i_j_ns(**w), tr.get_qgt(**q), s.get_f_ss_d_j_ns(w['h_sun_ns'], w['a_sun_ns'])]


@op(1, twice=True)
class sunlit_boundary:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        bs = boundary_dicts(p)
        return sunlit, (bs[p['s'] % len(bs)], weather_series(p['s'])), {}


@op(2)
class schedules:
    @staticmethod
    def gen(rng):
        n = rng.randint(1, 3)
        return {'n_p': round(rng.uniform(1.0, 4.0), 2), 'rooms': rng.sample(list(SPACES), n), 'a': [round(rng.uniform(5.0, 60.0), 1) for _ in range(n)]}

    @staticmethod
    def build(p, env):
        return M('initializer.schedule_loader').get_compiled_schedules, (), {
            'n_p': p['n_p'], 'room_name_is': list(p['rooms']), 'a_floor_is': np.array(p['a'])}


@op(2)
class response_factor:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'], 'rf')
        n = r.randint(1, 4)
        c, q = [round(r.uniform(1.0, 200.0), 2) for _ in range(n)], [round(r.uniform(0.02, 2.0), 3) for _ in range(n)]
        if r.random() < 0.5:
            c, q = np.array(c), np.array(q)
        return M('initializer.response_factor').calc_response_factor, (), {'is_ground': r.random() < 0.4, 'C_i_k_p': c, 'R_i_k_p': q}


def factory(spec):
    f = M('initializer.response_factor').ResponseFactorFactory.create(spec)
    return copy.deepcopy(f.get_response_factors()), f.get_response_factors()


@op(2, twice=True)
class response_factory:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'], 'factory')
        k = r.choice(['external_general_part', 'internal', 'ground', 'external_transparent_part', 'direct'])
        if k == 'direct':
            return factory, ({'method': 'response_factor', 'phi_t0': 0.4, 'phi_a0': 0.02, 'phi_t1': [0.1, 0.05], 'phi_a1': [0.001, 0.01], 'r': [0.9, 0.5]},), {}
        layers = [{'name': 'l%d' % i, 'thermal_resistance': round(r.uniform(0.05, 1.0), 3), 'thermal_capacity': round(r.uniform(1.0, 100.0), 2)} for i in range(r.randint(1, 3))]
        return factory, ({'method': 'layers', 'boundary_type': k, 'layers': layers, 'outside_heat_transfer_resistance': 0.04,
                          'inside_heat_transfer_resistance': 0.11, 'u_value': 2.3},), {}


def factory2(ground, cs, rs, r_o):
    m = M('initializer.response_factor')
    f = m.ResponseFactorFactoryTransientGround(cs, rs) if ground else m.ResponseFactorFactoryTransientEnvelope(cs, rs, r_o)
    return copy.deepcopy(f.get_response_factors()), f.get_response_factors()


@op(1, twice=True)
class response_of_layers:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'], 'layers')
        n = r.randint(1, 3)
        return factory2, (r.random() < 0.4, [round(r.uniform(1.0, 100.0), 2) for _ in range(n)], [round(r.uniform(0.05, 1.0), 3) for _ in range(n)], 0.04), {}


@op(1)
class furniture:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        return furnish, (arr(sub(p['s']), 3, 10.0, 90.0, True),), {}


def furnish(v):
    m = M('initializer.furniture')
    c, d = m.get_c_cap_frt_is(v), m.get_c_lh_frt_is(v)
    return c, m.get_g_sh_frt_is(c), d, m.get_g_lh_frt_is(d)


def forms(area, floor, heat):
    return (M('initializer.occupants_form_factor').get_f_mrt_hum_is(area, floor),
            M('initializer.a12_indoor_radiative_heat_transfer').get_flr_i_js(area, heat, floor))


@op(1)
class form_factors:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(3, 7)
        return forms, (arr(r, n, 1.0, 30.0), np.array([k % 3 == 0 for k in range(n)]), True), {}


# ---- load calculation
def pre_calc(d):
    return M('core.pre_calc_parameters').make_pre_calc_parameters(delta_t=900.0, data_directory=d)


@op(2, dirs=True)
class parameters:
    @staticmethod
    def gen(rng):
        return {'cfg': S.gen(rng, 'core')}

    @staticmethod
    def build(p, env):
        fill(p, env.inp)
        return pre_calc, (env.inp,), {}


@op(2)
class comfort:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(1, 4)
        return M('core.ot_target_pmv').get_ot_target_and_h_hum_with_pmv, (), {
            'x_r_is_n': arr(r, n, 0.003, 0.02, True), 'operation_mode_is_n_mns': np.array([[r.randint(1, 4)] for _ in range(n)]),
            'is_radiative_heating_is': np.array([[r.random() < 0.4] for _ in range(n)]), 'is_radiative_cooling_is': np.array([[r.random() < 0.4] for _ in range(n)]),
            'theta_r_is_n': arr(r, n, 5.0, 35.0, True), 'theta_mrt_is_n': arr(r, n, 5.0, 35.0, True), 'ac_demand_is_n': np.array([[float(r.random() < 0.7)] for _ in range(n)]),
            'method': r.choice(['constant', 'constant', 'convergence'])}


@op(2)
class loads:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(1, 4)
        g = np.random.default_rng(p['s'])
        b = lambda: np.array([[r.random() < 0.4] for _ in range(n)])
        return M('core.next_condition').calc_next_temp_and_load, (), {
            'is_radiative_heating_is': b(), 'is_radiative_cooling_is': b(), 'brc_ot_is_n': g.uniform(100, 4000, (n, 1)),
            'brm_ot_is_is_n': np.diag(g.uniform(50, 150, n)) - g.uniform(0, 5, (n, n)), 'brl_ot_is_is_n': np.diag(g.uniform(0.5, 1, n)),
            'theta_lower_target_is_n': g.uniform(18, 22, (n, 1)), 'theta_upper_target_is_n': g.uniform(25, 28, (n, 1)),
            'lr_h_max_cap_is': g.uniform(0, 1500, (n, 1)), 'lr_cs_max_cap_is': g.uniform(0, 1500, (n, 1)),
            'operation_mode_is_n': np.array([[r.randint(1, 4)] for _ in range(n)]), 'ac_demand_is_n': g.uniform(0, 1, (n, 1))}


@op(1)
class coil:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        g = np.random.default_rng(p['s'])
        n = p['s'] % 3 + 1
        qh, qc = g.uniform(2000, 5000, (n, 1)), g.uniform(2000, 5000, (n, 1))
        return M('core.heat_exchanger').get_dehumid_coeff, (), {
            'lcs_is_n': g.uniform(-4000, 1000, (n, 1)), 'theta_r_is_npls': g.uniform(20, 30, (n, 1)),
            'rac_spec': {'q_min': np.full((n, 1), 500.0), 'q_max': qh, 'v_min': g.uniform(2, 5, (n, 1)), 'v_max': g.uniform(6, 14, (n, 1))},
            'x_r_non_dh_is_n': g.uniform(0.005, 0.02, (n, 1))}


def moist(t, x):
    p = M('external.psychrometrics')
    return p.get_p_v_r_is_n(x), p.get_p_vs_is2(t), p.get_p_vs_is(t.flatten()), M('core.occupants').get_x_hum_psn_is_n(t), M('core.occupants').get_q_hum_psn_is_n(t)


@op(1)
class moist_air:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        return moist, (arr(r, 4, -20.0, 40.0, True), arr(r, 4, 0.001, 0.02, True)), {}


def forms2(a, p):
    h = M('core.shape_factor').get_h_r_js(a, p)
    return h, M('core.shape_factor').get_f_mrt_is_js(a, h, p.T)


@op(1)
class shape_factors:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(6, 12)
        a = arr(r, n, 5.0, 30.0, True)
        m = np.zeros((n, 2))
        for k in range(n):
            m[k, k % 2] = 1
        return forms2, (a, m), {}


def leak(rd, t, o):
    f = M('core.infiltration').make_get_infiltration_function(rd)
    return f(t, o).copy(), f(t, o)


@op(1, twice=True)
class infiltration:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(1, 3)
        return leak, ({'building': {'infiltration_method': 'balance_residential', 'story': r.choice([1, 2]), 'c_value': round(r.uniform(0.2, 4.0), 2),
                                    'inside_pressure': r.choice(['negative', 'positive', 'balanced'])},
                       'spaces': [{'volume': round(r.uniform(10, 90), 1)} for _ in range(n)]}, arr(r, n, 10, 30, True), r.uniform(-5, 35)), {}


@op(1)
class period:
    @staticmethod
    def gen(rng):
        return {'n_step_hourly': 4, 'n_d_main': rng.randint(1, 365), 'n_d_run_up': rng.randint(1, 365), 'n_d_run_up_build': rng.randint(0, 1)}

    @staticmethod
    def build(p, env):
        return M('core.period').get_n_step, (), dict(p)


# ---- small public functions: several related ones asked together, so that one may disturb another
def answers(*calls):
    """each call's answer, or the error it gives; then everything once more"""
    def once():
        out = []
        for f, a in calls:
            try:
                out.append(copy.deepcopy(f(*a)))
            except (ValueError, KeyError, TypeError, NotImplementedError) as e:
                out.append(type(e).__name__)
        return out
    return once(), once()


@op(1, twice=True)
class air_conditioner:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(1, 3)
        m, a, h, c = M('external.rac'), arr(r, n, 5.0, 60.0), arr(r, n, 1000.0, 6000.0), arr(r, n, 1000.0, 6000.0)
        return answers, ((m.get_q_rtd, (a,)), (m.get_q_max, (h, c)), (m.get_v_max, (c,)), (m.get_v_min, (arr(r, n, 5.0, 20.0),)),
                         (m.get_q_min_h, ()), (m.get_q_min_c, ())), {}


@op(1, twice=True)
class comfort_standard:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        m = M('external.iso7730')
        return answers, tuple((m.get_pmv_ppd, (r.uniform(0.8, 2.0), 0.0, r.uniform(15, 32), r.uniform(15, 32), r.uniform(0.2, 1.4), r.uniform(0.1, 0.6), r.uniform(20, 80)))
                              for _ in range(2)), {}


@op(1, twice=True)
class inclined_sun:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        w, m = weather_series(p['s']), M('initializer.inclined_surface_solar_radiation')
        d, o = M('initializer.external_boundaries_direction'), M('initializer.oblique_incidence_charac')
        k = r.choice(['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom'])
        a, b, g = r.uniform(-3, 3), r.uniform(0, 3), r.choice(['single', 'multiple'])
        return answers, ((d.get_w_alpha_j_w_beta_j, (k,)), (m.get_theta_aoi_j_n, (w['h_sun_ns'], w['a_sun_ns'], a, b)),
                         (m.get_i_is_j_ns, (w['i_dn_ns'], w['i_sky_ns'], w['h_sun_ns'], w['a_sun_ns'], a, b)), (m.get_r_n_is_j_ns, (w['r_n_ns'], b)),
                         (o.get_tau_d_j_ns, (w['h_sun_ns'], g)), (o.get_c_d_j, (g,))), {}


@op(1, twice=True)
class tables:
    """the lookup tables of the conversion; unknown keys are refused, and refusing one must not spoil the next"""
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        h, nu = M('external.factor_h').NextSpace, M('external.factor_nu').Direction
        c = M('initializer.estimate_c_value')
        calls = [(h.get_h, (s, r.randint(1, 8))) for s in r.sample(list(h), 3)] + [(nu.get_nu, (d, r.randint(1, 8), r.choice(['heating', 'cooling']))) for d in r.sample(list(nu), 4)]
        calls += [(M('convert.a_06_common_items').get_r_surf, (r.choice(['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'x']),
                                                              r.choice(['outdoor', 'open_space', 'air_conditioned']))) for _ in range(3)]
        calls += [(c.estimate_c_value, (r.uniform(0.3, 2.0), s)) for s in r.sample(list(c.Structure), 2)]
        calls += [(M('initializer.residents_number').get_total_number_of_residents, (r.choice([20.0, 30.0, 75.5, 120.0, 200.0]),)),
                  (M('convert.general_functions').round_num, (r.uniform(-100, 100), r.randint(0, 4)))]
        r.shuffle(calls)
        return answers, tuple(calls), {}


def shades(opaque, d, asks):
    m = M('convert.factor_f')
    x = m.SunshadeOpaque.make_sunshade_opaque(d) if opaque else m.SunshadeTransient.make_sunshade_transient(d)
    f = x.get_f_sh if opaque else x.get_f
    return answers((x.get_as_dict, ()), (x.make_initializer_dict, ()), *[(f, a) for a in asks])


@op(1, twice=True)
class sunshades:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        nu = M('external.factor_nu').Direction
        opaque = r.random() < 0.3
        d = {'is_defined': r.random() < 0.9, 'input': 'not_input'}
        if not opaque and r.random() < 0.7:
            d = {'is_defined': True, 'input': 'simple', 'depth': round(r.uniform(0.1, 2.0), 2), 'd_h': round(r.uniform(0.3, 2.5), 2), 'd_e': round(r.uniform(0.0, 1.0), 2)}
        asks = [] if not d['is_defined'] else [(r.randint(1, 7), r.choice(['heating', 'cooling']), x) for x in r.sample(list(nu), 4)]
        return shades, (opaque, d, asks), {}


def part_list(kind, ds, region):
    e = M('convert.ees_house')
    xs = getattr(getattr(e, kind[0]), kind[1])(ds)
    calls = [(lambda: len(xs), ())]
    for x in xs:
        calls += [(x.get_as_dict, ())]
        for n, a in (('get_u', ()), ('get_psi', ()), ('get_q', (region,)), ('get_m', (region, 'heating')), ('get_m', (region, 'cooling')), ('get_eta', ()),
                     ('make_initializer_dict', (region,) if kind[0] != 'GeneralPart' else (0.0, region))):
            if hasattr(x, n) and (n != 'make_initializer_dict' or kind[0] in ('GeneralPart', 'Window', 'Door')):
                calls.append((getattr(x, n), a))
    return answers(*calls)


KINDS = {'general_parts': ('GeneralPart', 'make_general_parts'), 'windows': ('Window', 'make_windows'), 'doors': ('Door', 'make_doors'),
         'earthfloor_perimeters': ('EarthfloorPerimeter', 'make_earthfloor_perimeters'), 'earthfloor_centers': ('EarthfloorCenter', 'make_earthfloor_centers'),
         'heat_bridges': ('Heatbridge', 'make_heatbridges')}


@op(2, twice=True)
class part_lists:
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        k = sorted(KINDS)[p['s'] % len(KINDS)]
        return part_list, (KINDS[k], envelope(p)[k], p['s'] % 7 + 1), {}


@op(1, twice=True)
class target_rules:
    """the mode automaton and the comfort vote, room by room and for all rooms together"""
    gen = staticmethod(seeded)

    @staticmethod
    def build(p, env):
        r = sub(p['s'])
        n = r.randint(1, 3)
        m, mode = M('core.ot_target_pmv'), M('core.operation_mode').OperationMode
        calls = [(m.get_operation_mode_is_n, (np.array([[float(r.random() < 0.7)] for _ in range(n)]), np.array([[r.choice(list(mode))] for _ in range(n)]),
                                               *[arr(r, n, -2, 2, True) for _ in range(3)])) for _ in range(2)]
        calls += [(m.get_clo_is_n, (np.array([[r.choice(list(mode))] for _ in range(n)]),)), (m.get_f_cl_is_n, (arr(r, n, 0.05, 0.2, True),)),
                  (m.get_i_cl_is_n, (arr(r, n, 0.3, 1.2, True),)), (m.get_m, ())]
        return answers, tuple(calls), {}


@op(1)
class conditions:
    @staticmethod
    def gen(rng):
        return {'n': rng.randint(1, 4), 'b': rng.randint(3, 20), 'g': rng.randint(1, 3)}

    @staticmethod
    def build(p, env):
        return start, (p['n'], p['b'], p['g']), {}


def start(n, b, g):
    m = M('core.conditions')
    return m.initialize_conditions(n_spaces=n, n_bdries=b), m.initialize_ground_conditions(n_grounds=g)
