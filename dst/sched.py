"""A scheduler that decides every switch between the threads of a run.

Real threads, one of them runnable at a time. A switch can happen before any line (or bytecode) of the product's code and
at every operation of the simulated disk; which of these points switch, and to whom, is a list in the scenario."""
import dis
import os
import random
import sys
import threading

import numpy as np

from . import rt

real_lock, real_rlock, real_thread = threading.Lock, threading.RLock, threading.Thread


class Stuck(Exception):
    pass


class Scheduler:
    def __init__(self, switches, opcodes=False, limit=50_000_000, chase=None, totals=None):
        """switches: [(points to run before it, which of the other runnable threads)]
        chase: {'seed', 'rate', 'window'}: instead, stop threads inside functions the others have not been through yet"""
        self.chase = dict(chase, rng=random.Random('chase:%s' % chase['seed'])) if chase else None
        self.totals = totals                  # per thread, how often it enters each function when run alone
        self.visits = {}                      # code -> [how often each thread entered it]
        self.stops = {}                       # frames about to be stopped: lines to go
        self.watch = {}                       # frames to be stopped right after they changed something shared: [its state, changes to go]
        self.hunt = None                      # (stopped thread, code, points left, frame the other is in, lines to go in it)
        self.asked = 0
        self.sw = [tuple(x) for x in switches]
        self.opcodes, self.limit = opcodes, limit
        self.k, self.left = 0, self.sw[0][0] if self.sw else None
        self.points = 0
        self.at = []                          # (from thread, where, to thread)
        self.cur = None
        self.alive, self.blocked = [], {}
        self.files = {}
        self.where = ''

    # ---------------------------------------------------------------- switching
    def point(self, where):
        """the running thread could lose the processor here"""
        if self.cur is None or threading.get_ident() != self.ident[self.cur]:
            return
        self.points += 1
        if self.points > self.limit:
            raise Stuck('no end after %d switch points' % self.limit)
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        pick = self.sw[self.k][1]
        self.k += 1
        self.left = self.sw[self.k][0] if self.k < len(self.sw) else None
        others = [t for t in self.alive if t != self.cur and t not in self.blocked]
        if others:
            self.give(others[pick % len(others)], where)

    def force(self, where, pause=200000):
        """something of the whole process has changed: let the others run for a long while"""
        if self.cur is None or threading.get_ident() != self.ident[self.cur]:
            return
        others = [t for t in self.alive if t != self.cur and t not in self.blocked]
        if others:
            if self.left is not None:
                self.left += pause
            self.give(others[len(self.at) % len(others)], where)

    def give(self, t, where):
        me = self.cur
        self.at.append((me, where, t))
        self.cur = t
        self.baton[t].release()
        self.baton[me].acquire()

    def block(self, lock):
        """the running thread waits for a lock"""
        me = self.cur
        self.blocked[me] = lock
        others = [t for t in self.alive if t not in self.blocked]
        if not others:
            raise Stuck('deadlock')
        self.give(others[0], 'lock')

    def unblock(self, lock):
        for t in [t for t, x in self.blocked.items() if x is lock]:
            del self.blocked[t]

    # ---------------------------------------------------------------- tracing of the product's code
    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        mine = self.files.get(fn)
        if mine is None:
            mine = self.files[fn] = os.path.realpath(fn).startswith(tuple(rt.PRODUCT_ROOTS))
        if not mine:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        if self.chase:
            if self.cur is not None:
                self._enter(frame)
            return self._chased
        return self._local

    # ---------------------------------------------------------------- chasing: a thread stops somewhere inside a function until another has been through it
    def _enter(self, frame):
        code, me, n = frame.f_code, self.cur, len(self.ident)
        v = self.visits.setdefault(code, [0] * n)
        v[me] += 1
        if self.hunt is not None and v[me] < 25 and shares(frame) and self._behind(code, me) and self.chase['rng'].random() < 0.8:
            self.hunt = None                   # more promising
        if self.hunt is not None:
            who, c, left, f, go = self.hunt
            if c is code and f is None and me != who:
                go, a = 0, self.chase['rng'].random()
                if a < 0.25:                   # the first one goes on when this one is in the midst of it,
                    go = 1 + int(self.chase['rng'].random() * lines_of(code))
                elif a < 0.65:                 # or well past it, else when it returns
                    frame = False
                self.hunt = (who, c, self.chase['reach'], frame, go)
            return
        self.asked += 1
        r = self.chase['rng']
        a, b, c = r.random(), r.random(), r.random()
        lo, hi = self.chase['window']
        if not lo <= self.asked < hi:
            return
        behind = bool(self._behind(code, me))
        rate = self.chase['rate'] * min(1.0, lines_of(code) / 12.0)
        if behind and v[me] < 25 and shares(frame):
            rate = max(rate, 0.8)
            if r.random() < 0.6:               # rather right after it has changed what is shared
                self.watch[frame] = [held_state(frame), 1 if r.random() < 0.7 else 2]
                return
        if a < rate * min(1.0, 25.0 / v[me]) and (behind or b < 0.05):
            self.stops[frame] = 1 + int(c * lines_of(code) * (8 if self.opcodes else 1))

    def _chased(self, frame, event, arg):
        if event == 'line' or event == 'opcode' or event == 'return':
            if self.cur is None or threading.get_ident() != self.ident[self.cur]:
                return self._chased
            self.points += 1
            if self.points > self.limit:
                raise Stuck('no end after %d switch points' % self.limit)
            me = self.cur
            if self.hunt is not None:
                who, code, left, f, go = self.hunt
                left -= 1
                back = left <= 0
                if f is frame:
                    if event == 'return':
                        back = True
                    elif go:
                        go -= 1
                        back = back or go == 0
                self.hunt = (who, code, left, f, go)
                if back and me != who:
                    self.hunt = None
                    if who in self.alive and who not in self.blocked:
                        self.give(who, (frame.f_code.co_name, frame.f_lineno))
            elif frame in self.watch:
                now = held_state(frame)
                if event == 'return':
                    del self.watch[frame]
                elif now != self.watch[frame][0]:
                    self.watch[frame][0] = now
                    self.watch[frame][1] -= 1
                    if self.watch[frame][1] <= 0:
                        del self.watch[frame]
                        self._stop(frame, frame.f_code)
            elif frame in self.stops:
                if event == 'return':
                    del self.stops[frame]
                else:
                    self.stops[frame] -= 1
                    if self.stops[frame] <= 0:
                        del self.stops[frame]
                        self._stop(frame, frame.f_code)
        return self._chased

    def _behind(self, code, me):
        """threads that will come by, and have not come by as often as this one"""
        v, k = self.visits[code], name_of(code)
        return [t for t in self.alive if t != me and t not in self.blocked and v[t] < v[me] and v[t] < self.totals[t].get(k, 0)]

    def _stop(self, frame, code):
        me, v = self.cur, self.visits[code]
        others = [t for t in self.alive if t != me and t not in self.blocked]
        if not others:
            return
        slow = self._behind(code, me)
        r = self.chase['rng']
        to = (slow or others)[int(r.random() * len(slow or others))]
        self.hunt = (me, code, 1_000_000 if slow else self.chase['reach'], None, 0)
        self.give(to, (frame.f_code.co_name, frame.f_lineno))

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            if self.left is not None:
                self.point((frame.f_code.co_name, frame.f_lineno))
        return self._local

    # ---------------------------------------------------------------- run
    def run(self, tasks):
        """run the callables as threads; returns their outcomes [(ok, value or exception)]"""
        n = len(tasks)
        out = [None] * n
        self.baton = [real_lock() for _ in tasks]
        self.ident = [None] * n
        for b in self.baton:
            b.acquire()
        done = real_lock()
        done.acquire()

        def body(t):
            self.baton[t].acquire()
            sys.settrace(self._global)
            try:
                out[t] = (True, tasks[t]())
            except Exception as e:
                out[t] = (False, e)
            except BaseException as e:
                out[t] = (False, e)
            finally:
                sys.settrace(None)
                self.alive.remove(t)
                rest = [x for x in self.alive if x not in self.blocked]
                if rest:
                    nxt = self.hunt[0] if self.hunt and self.hunt[0] in rest else rest[0]
                    self.hunt = None
                    self.cur = nxt
                    self.baton[nxt].release()
                else:
                    self.cur = None
                    done.release()
        th = [real_thread(target=body, args=(t,), daemon=True) for t in range(n)]
        self.alive = list(range(n))
        for t, x in enumerate(th):
            x.start()
            self.ident[t] = x.ident
        self.cur = 0
        self.baton[0].release()
        done.acquire()
        if self.alive:
            raise Stuck('threads %s wait for locks nobody releases' % self.alive)
        return out

    # ---------------------------------------------------------------- locks the product creates
    def locks(self):
        s = self

        class SimLock:
            re = False

            def __init__(self):
                self.owner, self.n = None, 0

            def acquire(self, blocking=True, timeout=-1):
                me = threading.get_ident()
                while self.owner is not None and not (self.re and self.owner == me):
                    if not blocking or s.cur is None:
                        return False
                    if timeout is not None and timeout >= 0:
                        return False
                    s.block(self)
                self.owner = me
                self.n += 1
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError('release unlocked lock')
                self.n -= 1
                if self.n == 0:
                    self.owner = None
                    s.unblock(self)

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        class SimRLock(SimLock):
            re = True
        return SimLock, SimRLock


def name_of(code):
    return code.co_filename, code.co_qualname, code.co_firstlineno


def counted(fn):
    """fn's result, and how often each function of the product was entered"""
    mine, n = {}, {}

    def enter(frame, event, arg):
        code = frame.f_code
        fn = code.co_filename
        if fn not in mine:
            mine[fn] = os.path.realpath(fn).startswith(tuple(rt.PRODUCT_ROOTS))
        if mine[fn]:
            k = name_of(code)
            n[k] = n.get(k, 0) + 1
    sys.settrace(enter)
    try:
        return fn(), n
    finally:
        sys.settrace(None)


_shares = {}


BOX = (dict, list, set, bytearray, np.ndarray)


def shares(frame):
    """the containers outliving the call (of its module, or of a class) this function refers to: a hint where to stop, not a judgement"""
    code = frame.f_code
    got = _shares.get(code)
    if got is None:
        g, names, got = frame.f_globals, set(code.co_names), []
        mine = lambda c: isinstance(c, type) and str(c.__module__).startswith(rt.TARGET)
        for i in dis.get_instructions(code):
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                got.append((g, i.argval))
        for n in sorted(names):
            if isinstance(g.get(n), BOX):
                got.append((g, n))
        classes = [g[n] for n in sorted(names) if mine(g.get(n))]
        if code.co_argcount:
            o = frame.f_locals.get(code.co_varnames[0])
            o = o if isinstance(o, type) else type(o)
            classes += [o] if mine(o) else []
        for c in classes:
            for k in c.__mro__:
                got += [(vars(k), n) for n, x in vars(k).items() if mine(k) and n in names and isinstance(x, BOX)]
        _shares[code] = got
    return got


def held_state(frame):
    """something that changes when these containers do"""
    out = []
    for where, n in shares(frame):
        x = where.get(n)
        out.append(id(x))
        if isinstance(x, np.ndarray):
            out.append(hash(x.tobytes()) if x.nbytes < 100000 and x.dtype != object else 0)
        elif isinstance(x, dict):
            out.append([id(y) for y in list(x.values())[:64]] + [len(x)])
        elif isinstance(x, (list, set, bytearray)):
            out.append([id(y) for y in list(x)[:64]] + [len(x)])
    return out


_lines = {}


def lines_of(code):
    """about how many lines a call of it steps through"""
    n = _lines.get(code)
    if n is None:
        n = _lines[code] = max(1, len({x[2] for x in code.co_lines() if x[2] is not None}) - 1)
    return n


def draw(rng, n, mode):
    """a list of switches"""
    out = []
    if mode == 'dense':
        out.append([int(10 ** rng.uniform(0, 4.5)), rng.randrange(4)])
        n -= 1
    for _ in range(n):
        if mode == 'dense':
            g = rng.randint(1, 9)
        elif mode == 'lockstep':
            g = rng.choice([1, 1, 1, 2])
        else:
            g = int(10 ** rng.uniform(0, 3.7))
        out.append([g, rng.randrange(4)])
    return out
