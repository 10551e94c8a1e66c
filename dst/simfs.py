"""A simulated disk under the real file API: every open, read, write, close, fsync and rename of a file under the disk's
roots is one numbered operation, and a plan decides which operation is cut short, fails, or is the last one of the process.

The files live in the run's scratch directory; what is simulated is the answer of each call and, after a crash, which of
the bytes written since the last fsync survived."""
import builtins
import errno
import hashlib
import io
import os
import pickle
import random
import re
import sys

ERR = {n: getattr(errno, n) for n in ('ENOSPC', 'EIO', 'EMFILE', 'EACCES', 'EDQUOT', 'ENOENT', 'EROFS', 'EPERM', 'ETIMEDOUT', 'ESTALE', 'EFBIG')}
# which errors an operation can meet in a deployment
CAN = {'open_r': ('EIO', 'EMFILE', 'EACCES', 'ENOENT', 'ESTALE', 'ETIMEDOUT'),
       'open_w': ('EIO', 'EMFILE', 'EACCES', 'ENOSPC', 'EROFS', 'ENOENT', 'EPERM', 'ETIMEDOUT'), 'read': ('EIO', 'ESTALE', 'ETIMEDOUT'),
       'write': ('ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ETIMEDOUT', 'ESTALE'), 'close_w': ('EIO', 'ENOSPC', 'EDQUOT'), 'close_r': ('EIO',), 'fsync': ('EIO', 'ENOSPC'),
       'rename': ('EIO', 'EACCES', 'ENOSPC', 'EROFS'), 'unlink': ('EIO', 'EACCES', 'EPERM'), 'mkdir': ('ENOSPC', 'EACCES', 'EROFS'), 'truncate': ('EIO',)}
VOLATILE = re.compile(r'tmp[a-z0-9_]{8}|[0-9a-f]{12,}')      # random parts of temporary names
WRITES = ('open_w', 'write', 'close_w', 'fsync', 'rename', 'unlink', 'mkdir', 'truncate')


def stable(name):
    """a file name without what differs from process to process"""
    return re.sub(r'(?<![0-9])%d(?![0-9])' % os.getpid(), '~', VOLATILE.sub('~', name))


class SimCrash(BaseException):
    """the process dies here"""


class Disk:
    def __init__(self, roots, plan=None, shorts=0.0, seed=0):
        """plan: {(operation, file name, how many of these before): action}; actions: ('error', errno name, sticky) | ('crash',)
        shorts: share of reads and writes the kernel cuts short (legal, the caller has to go on)"""
        self.roots = [os.path.realpath(r) for r in roots]
        self.plan = dict(plan or {})
        self.shorts, self.rng = shorts, random.Random('disk:%s' % seed)
        self.trace, self.fired, self.n_short = [], [], 0
        self.dead, self.sticky = False, {}
        self.dirty = {}                      # path -> bytes before the unsynced writes (None: did not exist)
        self.fds, self.count = {}, {}
        self.saved = []

    # ---------------------------------------------------------------- operations
    def mine(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.path.realpath(os.fsdecode(path))
        except (TypeError, ValueError):
            return None
        for r in self.roots:
            if p == r or p.startswith(r + os.sep):
                return p
        return None

    def op(self, kind, path, size=0):
        """account for one operation; raises what the plan wants"""
        if self.dead:
            raise SimCrash()
        name = '.' if path in self.roots else stable(os.path.basename(path))
        n = self.count.get((kind, name), 0)
        self.count[kind, name] = n + 1
        self.trace.append((kind, name, size))
        act = self.plan.get((kind, name, n))
        if kind in self.sticky:
            e = self.sticky[kind]
            raise OSError(ERR[e], os.strerror(ERR[e]), path)
        if act is None:
            return
        if act[0] == 'crash':
            self.fired.append(('crash', kind))
            self.dead = True
            raise SimCrash()
        e, sticky = act[1], act[2]
        self.fired.append((e, kind))
        if sticky:
            for k in (WRITES[:3] if e in ('ENOSPC', 'EDQUOT') else (kind,)):
                if e in CAN[k]:
                    self.sticky[k] = e
        raise OSError(ERR[e], os.strerror(ERR[e]), path)

    def cut(self, size):
        """how many of ``size`` bytes the kernel transfers this time"""
        if size > 1 and self.shorts and self.rng.random() < self.shorts:
            self.n_short += 1
            return self.rng.randint(1, size - 1)
        return size

    def lose(self, path):
        """a close that fails has lost a part of what was written behind (delayed allocation, network file systems)"""
        if path in self.dirty:
            try:
                n = os.stat(path).st_size
            except OSError:
                return
            if n:
                os.truncate(path, self.rng.randrange(n))

    def touch(self, path):
        """path is about to change: remember what a power loss may bring back"""
        if path not in self.dirty:
            try:
                fd = os_open(path, os.O_RDONLY)
            except OSError:
                self.dirty[path] = None
                return
            out = []
            while True:
                b = os_read(fd, 1 << 20)
                if not b:
                    break
                out.append(b)
            os_close(fd)
            self.dirty[path] = b''.join(out)

    # ---------------------------------------------------------------- seams
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = self.mine(file) if isinstance(file, (str, bytes, os.PathLike, int)) else None
        if path is None or not isinstance(mode, str):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = set(mode)
        if m - set('axrwb+t') or len(mode) > len(m) or ('t' in m and 'b' in m) or len(m & set('xrwa')) != 1:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)      # raises ValueError
        text = 'b' not in m
        if not text and (encoding is not None or errors is not None or newline is not None):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        w = bool(m & set('wax+'))
        if not isinstance(file, int):
            if os.path.isdir(path):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            self.op('open_w' if w else 'open_r', path)
            if w:
                self.touch(path)
        raw = SimRaw(self, path, w, file, ''.join(sorted(m & set('xrwa+'))), closefd, opener)
        line = False
        if buffering == 1 or buffering < 0 and raw.isatty():
            buffering, line = -1, text
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if text:
                raw.close()
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if '+' in m:
            buf = io.BufferedRandom(raw, buffering)
        elif w:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line)
        t.mode = mode
        return t

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.mine(path) if dir_fd is None else None
        if p is None or os.path.isdir(p):
            return os_open(path, flags, mode, dir_fd=dir_fd)
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        self.op('open_w' if w else 'open_r', p)
        if w:
            self.touch(p)
        fd = os_open(path, flags, mode)
        self.fds[fd] = p
        return fd

    def os_close(self, fd):
        p = self.fds.pop(fd, None)
        if p is not None and not self.dead:
            try:
                self.op('close_w', p)
            except OSError:
                self.lose(p)
                raise
            finally:
                os_close(fd)
            return
        os_close(fd)

    def os_write(self, fd, data):
        p = self.fds.get(fd)
        if p is None:
            return os_write(fd, data)
        data = bytes(data)
        self.op('write', p, len(data))
        return os_write(fd, data[:self.cut(len(data))])

    def os_read(self, fd, n):
        p = self.fds.get(fd)
        if p is None:
            return os_read(fd, n)
        self.op('read', p, n)
        return os_read(fd, self.cut(n))

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        p = self.fds.get(fd)
        if p is None:
            return os_fsync(fd)
        self.op('fsync', p)
        os_fsync(fd)
        self.dirty.pop(p, None)

    def rename(self, real):
        def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            s, d = self.mine(src), self.mine(dst)
            if s is None and d is None or src_dir_fd is not None or dst_dir_fd is not None:
                return real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            self.op('rename', d or s)
            for p in (s, d):
                if p:
                    self.touch(p)
            return real(src, dst)
        return f

    def remove(self, real):
        def f(path, *, dir_fd=None):
            p = self.mine(path) if dir_fd is None else None
            if p is None:
                return real(path, dir_fd=dir_fd)
            self.op('unlink', p)
            self.touch(p)
            return real(path)
        return f

    def mkdir(self, real):
        def f(path, mode=0o777, *, dir_fd=None):
            p = self.mine(path) if dir_fd is None else None
            if p is not None:
                self.op('mkdir', p)
            return real(path, mode, dir_fd=dir_fd)
        return f

    def __enter__(self):
        def put(o, name, new):
            self.saved.append((o, name, getattr(o, name)))
            setattr(o, name, new)
        put(builtins, 'open', self.open)
        put(io, 'open', self.open)
        put(os, 'open', self.os_open)
        put(os, 'close', self.os_close)
        put(os, 'write', self.os_write)
        put(os, 'read', self.os_read)
        put(os, 'fsync', self.os_fsync)
        put(os, 'fdatasync', self.os_fsync)
        put(os, 'rename', self.rename(os.rename))
        put(os, 'replace', self.rename(os.replace))
        put(os, 'remove', self.remove(os.remove))
        put(os, 'unlink', self.remove(os.unlink))
        put(os, 'mkdir', self.mkdir(os.mkdir))
        sh = sys.modules.get('shutil')
        if sh is not None:
            put(sh, '_USE_CP_SENDFILE', False)
        ds = sys.modules.get('numpy.lib._datasource')
        if ds is not None:
            ds._file_openers._load()
            self.np = dict(ds._file_openers._file_openers)
            ds._file_openers._file_openers[None] = self.open
        return self

    def __exit__(self, *a):
        for o, name, old in reversed(self.saved):
            setattr(o, name, old)
        self.saved = []
        ds = sys.modules.get('numpy.lib._datasource')
        if ds is not None:
            ds._file_openers._file_openers.update(self.np)

    # ---------------------------------------------------------------- after a crash
    def after_crash(self, rng, power):
        """what is on the disk when the machine is back. A killed process leaves what it wrote; a power loss may tear, zero,
        empty or undo everything not synced"""
        out = {}
        for path, old in sorted(self.dirty.items()):
            how = rng.choice(['kept', 'torn', 'empty', 'zeros', 'old']) if power else 'kept'
            try:
                fd = os_open(path, os.O_RDONLY)
            except OSError:
                data = None
            else:
                data = b''
                while True:
                    b = os_read(fd, 1 << 20)
                    if not b:
                        break
                    data += b
                os_close(fd)
            if how == 'old':
                new = old
            elif data is None:
                new = None
            elif how == 'torn':
                new = data[:rng.randint(0, len(data))]
            elif how == 'zeros':
                k = rng.randint(0, len(data))
                new = data[:k] + b'\0' * (len(data) - k)
            elif how == 'empty':
                new = b''
            else:
                new = data
            out[os.path.basename(path)] = how
            if new == data:
                continue
            if new is None:
                os.unlink(path)
            else:
                with real_open(path, 'wb') as f:
                    f.write(new)
        return out


class SimRaw(io.FileIO):
    def __init__(self, disk, path, w, file, mode, closefd, opener):
        self._d, self._p, self._w = disk, path, w
        self._x = False
        io.FileIO.__init__(self, file, mode, closefd, opener)
        disk.fds[self.fileno()] = path

    def write(self, b):
        d = self._d
        if d.dead:
            return len(memoryview(b).cast('B'))            # a dead process writes nothing
        b = bytes(b)
        try:
            d.op('write', self._p, len(b))
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.EDQUOT) and d.fired and d.fired[-1][1] == 'write' and len(b) > 1 and not self._x:
                self._x = True                             # a filling disk takes a part first; the next call fails for good
                d.sticky.setdefault('write', errno.errorcode[e.errno])
                return io.FileIO.write(self, b[:d.rng.randint(1, len(b) - 1)])
            raise
        return io.FileIO.write(self, b[:d.cut(len(b))])

    def readinto(self, b):
        v = memoryview(b).cast('B')
        self._d.op('read', self._p, len(v))
        return io.FileIO.readinto(self, v[:self._d.cut(len(v))])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        self._d.op('read', self._p, n)
        return io.FileIO.read(self, self._d.cut(n))

    def readall(self):
        out = []
        while True:
            b = self.read(65536)
            if not b:
                return b''.join(out)
            out.append(b)

    def truncate(self, size=None):
        self._d.op('truncate', self._p)
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed:
            return
        d = self._d
        try:
            d.fds.pop(self.fileno(), None)
            if not d.dead:
                d.op('close_w' if self._w else 'close_r', self._p)
        except OSError:
            if self._w:
                d.lose(self._p)
            raise
        finally:
            io.FileIO.close(self)


real_open, os_open, os_close = builtins.open, os.open, os.close
os_write, os_read, os_fsync = os.write, os.read, os.fsync


# ------------------------------------------------------------------------------ processes of a run
class Outcome:
    """how a simulated process ended: 'ok' (value), 'error' (exception text), 'crash'"""
    def __init__(self, how, value=None, error=None, aux=None, product=True):
        self.how, self.value, self.error, self.aux, self.product = how, value, error, aux, product


def attempt(fn, disk=None):
    """call fn on the disk, in this process"""
    from . import rt
    try:
        if disk is None:
            v = fn()
        else:
            with disk:
                v = fn()
        return Outcome('crash') if disk is not None and disk.dead else Outcome('ok', v)
    except SimCrash:
        return Outcome('crash')
    except MemoryError:
        raise
    except Exception as e:
        if disk is not None and disk.dead:
            return Outcome('crash')
        return Outcome('error', None, '%s: %s' % (type(e).__name__, str(e)[:300]), product=rt.from_product(e) is not None)


def process(ctx, fn):
    """run fn in a process of its own (forked from the run before the product was ever called); returns what it returns"""
    ctx._n += 1
    path = os.path.join(ctx.root, '.process%d' % ctx._n)
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            res = (True, fn())
        except BaseException as e:
            import traceback
            res = (False, ''.join(traceback.format_exception(e))[-3000:])
        try:
            with real_open(path, 'wb') as f:
                pickle.dump(res, f)
            rc = 0
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError('a simulated process died: status %d' % st)
    with real_open(path, 'rb') as f:
        ok, v = pickle.load(f)
    os.unlink(path)
    if not ok:
        raise RuntimeError('in a simulated process:\n' + v)
    return v


# ------------------------------------------------------------------------------ comparisons
def frame_digest(df):
    h = hashlib.sha256()
    h.update(repr(list(df.columns)).encode())
    h.update(repr([str(x) for x in df.index[:3]] + [len(df)] + [str(x) for x in df.index[-1:]]).encode())
    for k in range(df.shape[1]):
        a = df.iloc[:, k].to_numpy()
        if a.dtype == object:
            h.update(repr([str(x) for x in a]).encode())
        else:
            h.update(str(a.dtype).encode() + a.tobytes())
    return h.hexdigest()


def content(d):
    """{name: bytes} of a directory"""
    out = {}
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            with real_open(p, 'rb') as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def differs(a, b):
    """the first difference between two contents, as text, or None"""
    if a == b:
        return None
    if a is None or b is None:
        return 'missing' if b is None else 'appeared'
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return 'length %d instead of %d, first difference at byte %d (line %d)' % (len(b), len(a), n, a[:n].count(b'\n') + 1)
