"""Runtime of the simulator: seeded scenarios, one forked process per run, shrinking, replay files, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HLC_REPO', '/repo')
TARGET = 'heat_load_calc'
PRODUCT_ROOTS = [os.path.realpath(os.path.join(REPO, TARGET))]      # a private installation is added to this list


class Violation(Exception):
    """raised inside a run to stop it at the first broken invariant"""
    def __init__(self, kind, msg, key=None):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.key = kind, msg, key


class Ctx:
    """what one simulated run may use"""
    def __init__(self, root, tier):
        self.root, self.tier = root, tier
        self.viol, self.fault, self.probes = [], Counter(), Counter()
        self.ticks = 0
        self.sig = []
        self.nontrivial = True
        self._n = 0
        self._h = hashlib.sha256()
        self.allow = [root]

    def scratch(self, name=None):
        self._n += 1
        d = os.path.join(self.root, name or 'd%d' % self._n)
        os.makedirs(d, exist_ok=True)
        return d

    def faults(self, kinds):
        for k in kinds:
            self.fault[k] += 1

    def probe(self, name, n=1):
        if n:
            self.probes[name] += int(n)

    def state(self, *key):
        """a distinct state / interleaving reached (counted over all runs)"""
        self.sig.append('/'.join(str(k) for k in key))

    def log(self, *objs):
        """append to the run's event log; only its hash is kept"""
        for o in objs:
            if hasattr(o, 'tobytes'):
                self._h.update(str(getattr(o, 'shape', '')).encode() + (o.tobytes() if o.dtype != object else repr(o.tolist()).encode()))
            elif isinstance(o, bytes):
                self._h.update(o)
            else:
                self._h.update(repr(o).encode())
            self._h.update(b'|')

    def fail(self, kind, msg, key=None):
        self.viol.append({'kind': kind, 'msg': msg[:600], 'key': key})
        self.log(kind, msg)

    def check(self, ok, kind, msg, key=None):
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg, key)


# ------------------------------------------------------------------------------ containment of a run
_guard = {'on': False, 'roots': [], 'hits': []}


def _audit(event, args):
    g = _guard
    if not g['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        w = (mode is not None and any(c in mode for c in 'wax+')) or \
            (mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        if w:
            _deny(path, 'open for writing')
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.link',
                   'os.symlink', 'os.rename', 'shutil.rmtree', 'shutil.move'):
        for a in args[:2] if event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move') else args[:1]:
            if isinstance(a, (str, bytes, os.PathLike)):
                _deny(a, event)
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.kill', 'socket.connect', 'socket.bind'):
        g['hits'].append((event, repr(args)[:200]))
        raise PermissionError('simulated process: %s is not available' % event)


def _deny(path, what):
    p = os.fsdecode(path) if isinstance(path, bytes) else str(path)
    p = os.path.normpath(os.path.join(os.getcwd(), p)) if not os.path.isabs(p) else os.path.normpath(p)
    if p in ('/dev/null',) or any(p == r or p.startswith(r + '/') for r in _guard['roots']):
        return
    _guard['hits'].append((what, p))
    raise PermissionError('outside the simulated disk: %s' % p)


def guard_hits():
    return list(_guard['hits'])


# ------------------------------------------------------------------------------ one run in a child process
def load_module(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def import_target():
    for m in ('core.core', 'core.sequence', 'core.sequence_ground', 'core.conditions', 'weather.weather',
              'initializer.initializer', 'initializer.response_factor'):
        importlib.import_module(TARGET + '.' + m)


def _child(mod, scn, tier, root, outpath):
    res = {}
    try:
        os.chdir(root)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        dn = os.open('/dev/null', os.O_WRONLY)
        os.dup2(dn, 1)
        ctx = Ctx(root, tier)
        tempfile.tempdir = os.environ['TMPDIR'] = ctx.scratch('tmp')
        _guard.update(on=True, roots=[os.path.realpath(root), root], hits=[])
        random.seed(12345)
        try:
            mod.run(scn, ctx)
        except Violation as v:
            ctx.fail(v.kind, v.msg, v.key)
        except AssertionError:
            raise
        _guard['on'] = False
        res = {'ok': True, 'viol': ctx.viol, 'faults': dict(ctx.fault), 'probes': dict(ctx.probes), 'ticks': ctx.ticks,
               'sig': ctx.sig, 'nontrivial': bool(ctx.nontrivial), 'log': ctx._h.hexdigest()}
    except BaseException as e:
        _guard['on'] = False
        txt = ''.join(traceback.format_exception(e))[-3000:]
        f = from_product(e)
        if f is not None:
            res = {'ok': True, 'viol': [{'kind': 'exception:%s' % type(e).__name__,
                                         'msg': 'legal input refused: %s: %s (at %s:%d)' % (
                                             type(e).__name__, str(e)[:200], f.filename[f.filename.rfind(TARGET):], f.lineno),
                                         'key': None}],
                   'faults': dict(ctx.fault), 'probes': dict(ctx.probes), 'ticks': ctx.ticks, 'sig': ctx.sig, 'nontrivial': True,
                   'log': hashlib.sha256(('%s %s' % (type(e).__name__, f.name)).encode()).hexdigest(), 'tb': txt}
        else:
            res = {'ok': False, 'error': txt}
    try:
        with open(outpath + '.tmp', 'w') as f:
            json.dump(res, f)
        os.rename(outpath + '.tmp', outpath)
    finally:
        os._exit(0)


def from_product(e):
    """the innermost product frame if the exception comes out of the product called by the harness, else None"""
    root = tuple(PRODUCT_ROOTS)
    tb = traceback.extract_tb(e.__traceback__)
    mine = [k for k, f in enumerate(tb) if os.path.realpath(f.filename).startswith(VERIF + os.sep)]
    after = [f for f in tb[(mine[-1] if mine else -1) + 1:] if os.path.realpath(f.filename).startswith(root)]
    return after[-1] if after else None


class Pool:
    """forks one child per run; at most ``w`` at a time; results in the order of the jobs"""
    def __init__(self, mod, tier, work, w, limit):
        self.mod, self.tier, self.work, self.w, self.limit = mod, tier, work, w, limit
        self.seq = 0

    def run(self, jobs, deadline=None, stop=None):
        """jobs: list of (key, scn). Yields (key, scn, result) in order of completion."""
        jobs = iter(jobs)
        live = {}
        done = False
        retry = []
        while True:
            while not done and len(live) < self.w:
                if (deadline and time.time() > deadline) or (stop and stop()):
                    done = True
                    break
                try:
                    key, scn = next(jobs)
                except StopIteration:
                    done = True
                    break
                self._start(live, key, scn, self.limit)
            if not live:
                break
            for item in self._reap(live):
                key, scn, res = item
                if res is None:
                    retry.append((key, scn))
                else:
                    yield item
        for key, scn in retry:              # a run that hung or died: once more, alone, with a longer limit
            self._start(live, key, scn, self.limit * 3)
            while live:
                for key, scn, res in self._reap(live):
                    if res is None:
                        res = {'ok': True, 'viol': [{'kind': 'no-progress', 'msg': 'the run did not finish (hang or process '
                                                     'death) within %d s' % (self.limit * 3), 'key': None}], 'faults': {},
                               'probes': {}, 'ticks': 0, 'sig': [], 'nontrivial': True, 'log': 'none'}
                    yield key, scn, res

    def _start(self, live, key, scn, limit):
        self.seq += 1
        root = os.path.join(self.work, 'w%d' % self.seq)
        os.makedirs(root)
        out = os.path.join(self.work, 'o%d.json' % self.seq)
        scn = json.loads(json.dumps(scn))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _child(self.mod, scn, self.tier, root, out)
        live[pid] = (key, scn, root, out, time.time() + limit)

    def _reap(self, live):
        out = []
        pid = 0
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pass
        if pid == 0:
            now = time.time()
            for p, (key, scn, root, o, dl) in list(live.items()):
                if now > dl:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del live[p]
                    shutil.rmtree(root, ignore_errors=True)
                    out.append((key, scn, None))
            if not out:
                time.sleep(0.002)
            return out
        if pid in live:
            key, scn, root, o, dl = live.pop(pid)
            res = None
            if os.path.exists(o):
                with open(o) as f:
                    res = json.load(f)
                os.unlink(o)
            shutil.rmtree(root, ignore_errors=True)
            out.append((key, scn, res))
        return out


# ------------------------------------------------------------------------------ known findings
def known_findings(pid):
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding:'):
                w = line.split(None, 3)
                d = dict(x.split('=', 1) for x in w[1:3])
                if d.get('property') == pid:
                    out[d['key']] = w[3]
    return out


# ------------------------------------------------------------------------------ main
def scenario(mod, pid, seed, idx, tier):
    rng = random.Random('%s:%d:%d' % (pid, seed, idx))
    return json.loads(json.dumps(mod.gen(rng, idx, tier)))


def real_violations(res, known):
    return [v for v in res.get('viol', []) if v.get('key') not in known]


def minimise(mod, pool, scn, kind, known, budget):
    """greedy: accept the first simpler neighbour that still breaks the same invariant"""
    if not hasattr(mod, 'shrink'):
        return scn, 0
    end = time.time() + budget
    steps = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        cand = []
        for c in mod.shrink(scn):
            cand.append(c)
            if len(cand) >= 400:
                break
        for lo in range(0, len(cand), pool.w):
            if time.time() > end:
                break
            batch = list(enumerate(cand[lo:lo + pool.w]))
            got = {}
            for key, s, res in pool.run(batch):
                got[key] = res
            hit = [k for k in sorted(got) if got[k].get('ok') and any(v['kind'] == kind for v in real_violations(got[k], known))]
            if hit:
                scn = json.loads(json.dumps(batch[hit[0]][1]))
                steps += 1
                progress = True
                break
    return scn, steps


def main(argv):
    warnings.filterwarnings('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument('--hashes', help='write the log hash of every run to this file (determinism diff)')
    ap.add_argument('--show', type=int, help='run one index in this process order and print its result')
    a = ap.parse_args(argv)
    pid = a.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.addaudithook(_audit)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='hlcdst.')
    try:
        return _main(a, pid, seed, work, t0)
    except Exception:                          # an error of the harness is neither a pass nor a violation
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(a, pid, seed, work, t0):
    mod = load_module(pid)
    try:
        import_target()
    except Exception as e:
        print('the package cannot be imported: %r' % e, file=sys.stderr)
    known = known_findings(pid)
    limit = getattr(mod, 'LIMIT', 60)
    pool = Pool(mod, a.tier, work, a.workers, limit)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        res = list(pool.run([(0, rep['scenario'])]))[0][2]
        if not res['ok']:
            print(res['error'], file=sys.stderr)
            return 2
        bad = real_violations(res, known)
        for v in res['viol']:
            print('replay: %s: %s' % (v['kind'], v['msg']))
        print('replay: log %s (recorded %s)' % (res['log'][:16], str(rep.get('log'))[:16]))
        if bad:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        print('replay: no violation')
        return 0

    print('seed %d, property %s, tier %s' % (seed, pid, a.tier))
    if a.show is not None:
        scn = scenario(mod, pid, seed, a.show, a.tier)
        res = list(pool.run([(0, scn)]))[0][2]
        print(json.dumps({k: v for k, v in res.items() if k != 'sig'}, indent=1, ensure_ascii=False))
        return 0

    runs = a.runs or (mod.RUNS[0] if a.tier == 'quick' else mod.RUNS[1])
    wall = getattr(mod, 'WALL', (300, 3000))[0 if a.tier == 'quick' else 1]
    results, errors = {}, []
    samples = []
    stopat = {'idx': None}

    def jobs():
        for k in range(a.first, a.first + runs):
            yield k, scenario(mod, pid, seed, k, a.tier)

    nviol = 0
    for idx, scn, res in pool.run(jobs(), deadline=t0 + wall, stop=lambda: stopat['idx'] is not None):
        if not res['ok']:
            errors.append((idx, res['error']))
            if len(errors) > 5:
                stopat['idx'] = idx
            continue
        results[idx] = res
        if real_violations(res, known):
            nviol += 1
            if nviol >= 4:
                stopat['idx'] = idx          # enough: stop starting new runs, report the earliest
    search_s = time.time() - t0

    if a.hashes:
        with open(a.hashes, 'w') as f:
            for k in sorted(results):
                f.write('%d %s %s\n' % (k, results[k]['log'], [v['kind'] for v in results[k]['viol']]))

    bad = sorted(k for k in results if real_violations(results[k], known))
    seen_known = Counter()
    for r in results.values():
        for v in r['viol']:
            if v.get('key') in known:
                seen_known[v['key']] += 1
    rc = 0
    report = None
    if bad:
        idx = bad[0]
        v = real_violations(results[idx], known)[0]
        scn = scenario(mod, pid, seed, idx, a.tier)
        small, steps = minimise(mod, pool, scn, v['kind'], known, 75 if a.tier == 'quick' else 240)
        res = list(pool.run([(0, small)]))[0][2]
        again = real_violations(res, known) if res['ok'] else []
        if not any(w['kind'] == v['kind'] for w in again):
            small, res, again = scn, results[idx], [v]
        w = [x for x in again if x['kind'] == v['kind']][0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-s%d-r%d.json' % (pid, seed, idx))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'run': idx, 'kind': w['kind'], 'msg': w['msg'], 'log': res['log'],
                       'shrink_steps': steps, 'scenario': small}, f, indent=1, ensure_ascii=False)
        same = 0
        for _ in range(2):
            p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'check.py'), pid, '--replay', path],
                               capture_output=True, text=True)
            same += p.returncode == 1 and res['log'][:16] in p.stdout
        print('violated by run %d of seed %d: %s: %s' % (idx, seed, w['kind'], w['msg']))
        if res.get('tb'):
            print(res['tb'])
        print('minimised in %d steps; replayed exactly %d/2 times in fresh processes; %d of %d runs violate'
              % (steps, same, len(bad), len(results)))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        report = {'run': idx, 'kind': w['kind'], 'msg': w['msg'], 'replayed_exactly': same, 'replay': os.path.relpath(path, VERIF)}
        rc = 1
    for k in sorted(known):
        if seen_known[k]:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))

    # ---------------------------------------------------------------- evidence
    faults, probes, states = Counter(), Counter(), Counter()
    for r in results.values():
        faults.update(r['faults'])
        probes.update(r['probes'])
        states.update(r['sig'])
    nontriv = set(r['log'] for r in results.values() if r['nontrivial'])
    ticks = sum(r['ticks'] for r in results.values())
    n = len(results)
    for k in sorted(results)[:2]:
        samples.append(summarise(scenario(mod, pid, seed, k, a.tier), results[k]))
    ev = {'property': pid, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed, 'level': mod.LEVEL,
          'coverage': {
              'evaluations': n, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE, 'samples': samples,
              'runs_planned': runs, 'runs_per_hour': int(n / max(search_s, 1e-3) * 3600), 'seeds_per_hour':
              int(n / max(search_s, 1e-3) * 3600), 'simulated_hours': round(ticks * 0.25, 1), 'simulated_ticks': ticks,
              'faults_injected': dict(sorted(faults.items())), 'probes': dict(sorted(probes.items())),
              'distinct_states': len(states), 'distinct_states_measure': getattr(mod, 'STATES', 'none'),
              'real_components': mod.REAL, 'stub_components': mod.STUB,
              'known_findings_seen': dict(seen_known), 'violating_runs': len(bad), 'first_violation': report,
              'harness_errors': len(errors), 'workers': a.workers},
          'assumptions': mod.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%d runs, %d distinct non-trivial, %.0f simulated hours, %d distinct states, %d faults injected, %.1f s'
          % (n, len(nontriv), ticks * 0.25, len(states), sum(faults.values()), time.time() - t0))
    if errors:
        print('harness error in %d runs, first (run %d):\n%s' % (len(errors), errors[0][0], errors[0][1]), file=sys.stderr)
        if rc == 0:
            rc = 2
    if rc == 0 and n < min(runs, getattr(mod, 'MINRUNS', 8)):
        print('too few runs finished: %d of %d' % (n, runs), file=sys.stderr)
        rc = 2
    return rc


def summarise(scn, res):
    s = dict(scn)
    if 'house' in s:
        h = s['house']
        s['house'] = {'rooms': len(h['spaces']), 'boundaries': [b['name'] for b in h['boundaries']], 'building': h['building']}
    txt = json.dumps(s, ensure_ascii=False)
    if len(txt) > 2500:
        for k in list(s):
            if len(json.dumps(s[k])) > 900:
                s[k] = json.dumps(s[k])[:400] + ' ...'
    return {'scenario': s, 'violations': res['viol'], 'faults': res['faults'], 'probes': res['probes'], 'ticks': res['ticks']}
