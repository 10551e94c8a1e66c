"""The three stages of the pipeline as units a fault plan, a crash or a thread schedule can be applied to."""
import copy
import json
import os

from . import house as H
from . import pipe
from . import rt
from . import simfs

RESULTS = ['result_detail.csv', 'result_digest.csv']
KINDS = ('weather', 'house', 'json', 'core')


def gen(rng, kind, small=True):
    if kind == 'weather':
        return {'stage': kind, 'region': rng.randint(1, 8), 'interval': rng.choice(['15m', '15m', '30m', '1h'])}
    if kind in ('house', 'json'):
        return {'stage': kind, 'spec': pipe.gen_spec(rng, rooms=rng.choice([1, 2]) if small else None)}
    D = rng.choice([1, 1, 2])
    scn = H.gen_scenario(rng, H.features(rng, rooms=rng.choice([1, 1, 2, 3])), D=D, run={
        'n_d_main': D, 'n_d_run_up': rng.choice([0, 1]), 'n_d_run_up_build': 0}, events=rng.choice([0, 2]))
    return dict(scn, stage=kind)


def promised(cfg):
    return {'weather': ['weather.csv'], 'house': pipe.MAKE_HOUSE_FILES, 'json': ['mid_data_house.json'], 'core': RESULTS}[cfg['stage']]


def prepare(cfg, d):
    """the input files of the stage, on a healthy disk"""
    if cfg['stage'] in ('house', 'json'):
        pipe.make_weather(cfg['spec']['common']['region'], d)
    elif cfg['stage'] == 'core':
        H.write(d, cfg['house'], H.expand(cfg))


def invoke(cfg, inp, out):
    """run the stage; returns a digest of what it returned"""
    k = cfg['stage']
    if k == 'weather':
        return simfs.frame_digest(pipe.make_weather(cfg['region'], out, cfg['interval']))
    if k == 'house':
        return repr(pipe.make_house(copy.deepcopy(cfg['spec']), inp, out))
    if k == 'json':
        from heat_load_calc.initializer import initializer
        with H.Quiet():
            return repr(initializer.make_house_for_test(d=copy.deepcopy(cfg['spec']), input_data_dir=inp, output_data_dir=out))
    ds, dd = H.core_calc(inp, out, show_simple_result=True, show_detail_result=True, **cfg['run'])
    return simfs.frame_digest(ds) + simfs.frame_digest(dd)


def ticks(cfg):
    r = cfg.get('run')
    return (r['n_d_main'] + r['n_d_run_up']) * H.STEPS if r else 35040


def classes(trace, writes_only=False):
    """operations of a clean run grouped by (operation, file), in order of first use: {(operation, file): how many}"""
    out = {}
    for kind, name, size in trace:
        if not writes_only or kind in simfs.WRITES:
            out[kind, name] = out.get((kind, name), 0) + 1
    return out


def place(rng, n):
    """first, last, or any of n operations"""
    return rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])


def shrink(cfg):
    if cfg['stage'] == 'core':
        for s in H.shrink(cfg):
            yield dict(s, stage='core')
    elif cfg['stage'] in ('house', 'json'):
        for d in pipe.shrink_spec(cfg['spec']):
            yield dict(cfg, spec=d)


def roots(*dirs):
    return list(dirs) + [r for r in rt.PRODUCT_ROOTS]
