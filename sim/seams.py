"""The seams: every source of nondeterminism and every effect of a simulated process goes through here.

Patches are installed once, on library modules (builtins.open, os.*, time.*, subprocess.Popen, ...).  Each looks up the
simulated process of the calling thread; calls from anywhere else reach the real function.  /repo is not modified.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import posixpath
import random as _random
import shutil
import stat as _stat
import subprocess
import sys
import tempfile
import threading
import time as _time
import uuid
import weakref

import numpy as np

from . import core
from .core import SimKilled, StubGap
from .vfs import err

REAL = {}
_threads = {}
_ident = threading.get_ident
VFD = 1_000_000


def cur():
    return _threads.get(_ident())


def register_thread(p):
    _threads[_ident()] = p
    p.tid = _ident()


def unregister_thread(p):
    _threads.pop(_ident(), None)


# ------------------------------------------------------------------------------------------------ context switch
_saved = {}


def switch_in(p):
    _saved['argv'], _saved['stdout'], _saved['stderr'] = sys.argv, sys.stdout, sys.stderr
    _saved['main'] = sys.modules.get('__main__')
    _saved['path'] = list(sys.path)
    _saved['mods'] = {n: sys.modules[n] for n in p.private if n in sys.modules}
    _saved['py'] = _random.getstate()
    _saved['np'] = np.random.get_state()
    sys.modules.update(p.modules)
    sys.argv = p.argv
    sys.stdout, sys.stderr = p.streams or (p.stdout, p.stdout)
    if p.sys_path is not None:
        sys.path[:] = p.sys_path
    if p.rand_state is None:
        _random.seed(core.h64(p.world.seed, p.entropy, 'pyrandom'))
        np.random.seed(core.h64(p.world.seed, p.entropy, 'nprandom') & 0xffffffff)
    else:
        _random.setstate(p.rand_state)
        np.random.set_state(p.np_state)


def switch_out(p):
    p.rand_state = _random.getstate()
    p.np_state = np.random.get_state()
    for n in list(p.modules):
        m = sys.modules.pop(n, None)
        if m is not None:
            p.modules[n] = m
        else:
            del p.modules[n]
    sys.modules.update(_saved['mods'])
    sys.modules['__main__'] = _saved['main']
    p.streams = (sys.stdout, sys.stderr)
    p.sys_path = list(sys.path)
    sys.path[:] = _saved['path']
    sys.argv, sys.stdout, sys.stderr = _saved['argv'], _saved['stdout'], _saved['stderr']
    _random.setstate(_saved['py'])
    np.random.set_state(_saved['np'])


_private_code = {}


def private_stdlib(p, name):
    """Give process p its own copy of a standard library module that keeps process-wide state.  (Called on p's thread.)"""
    import types
    real = sys.modules[name]
    code = _private_code.get(name)
    if code is None:
        with REAL['open'](real.__file__, 'rb', 0) as f:
            src = f.read().decode()
        src = src.replace('atexit.register(', '(lambda *a: None)(').replace('os.register_at_fork(', '(lambda **k: None)(')
        code = _private_code[name] = compile(src, real.__file__, 'exec', dont_inherit=True)
    m = types.ModuleType(name)
    m.__file__, m.__spec__, m.__path__ = real.__file__, real.__spec__, getattr(real, '__path__', [])
    _saved['mods'].setdefault(name, real)
    p.private.add(name)
    p.modules[name] = sys.modules[name] = m
    p.noswitch += 1
    p.quiet += 1
    try:
        exec(code, m.__dict__)
    finally:
        p.noswitch -= 1
        p.quiet -= 1
    return m


# ------------------------------------------------------------------------------------------------ paths
_real_prefixes = tuple(sorted({os.path.realpath(x) + '/' for x in (
    sys.prefix, sys.base_prefix + '/lib', sys.exec_prefix, '/usr/lib', '/usr/share', '/proc', '/dev', '/etc', '/opt/mplconfig',
    os.path.dirname(os.__file__), os.path.dirname(np.__file__))} | {sys.prefix + '/'}))


def abspath(p, path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith('/'):
        path = (p.cwd.rstrip('/') or '') + '/' + path
    return path


def is_real(path):
    return path.startswith(_real_prefixes) or path in ('/dev/null',)


class _Fd:
    def __init__(self, raw):
        self.raw = raw


def fs_step(p, cls, detail, write=False):
    """One file-system operation: lets faults that fail the call apply.  Returns the remaining fault, if any."""
    w = p.world
    f = w.step(p, cls, detail)
    if f is None:
        return None
    k = f['kind']
    if k in ('eio', 'enospc', 'eacces', 'emfile', 'estale', 'edquot') and cls not in ('write', 'read'):
        w.fired(f)
        raise err({'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
                   'estale': errno.ESTALE, 'edquot': errno.EDQUOT}[k], detail)
    if k == 'interrupt':
        w.fired(f)
        raise KeyboardInterrupt()
    if k == 'memerr':
        w.fired(f)
        raise MemoryError()
    return f


# ------------------------------------------------------------------------------------------------ files
class SimRaw(io.RawIOBase):
    def __init__(self, p, path, node, readable, writable, append):
        self.p, self.path, self.node = p, path, node
        self._r, self._w, self._a = readable, writable, append
        self.pos = len(node.data) if append else 0
        self.name = path
        self.mode = ('rb+' if readable and writable else 'wb' if writable else 'rb')
        p.fdctr += 1
        self.fd = p.fdctr
        p.fdtable[self.fd] = self

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        p = self.p
        f = fs_step(p, 'read', self.path)
        n = min(len(b), max(0, len(self.node.data) - self.pos))
        if f is not None and f['kind'] == 'eio':
            p.world.fired(f)
            raise err(errno.EIO, self.path)
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, int(n * f.get('frac', 0.5)))
            p.world.fired(f)
        b[:n] = self.node.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        p = self.p
        if p.dead or p.world.stopping or self.closed:
            return len(b)               # the process no longer exists: nothing reaches the disk
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        data = bytes(b)
        w = p.world
        f = fs_step(p, 'write', '%s+%d' % (self.path, len(data)))
        n = len(data)
        exc = None
        kill = False
        if f is not None:
            k = f['kind']
            if k in ('enospc', 'eio', 'edquot'):
                n = int(n * f.get('frac', 0.5)) if k != 'eio' else int(n * f.get('frac', 0.0))
                if f.get('eol'):
                    n = data.rfind(b'\n', 0, n) + 1         # cut between two lines
                exc = err(errno.ENOSPC if k == 'enospc' else errno.EDQUOT if k == 'edquot' else errno.EIO, self.path)
                w.fired(f)
                if n > 0:
                    exc = None          # a short write first; the next write finds the disk full
                    self._pending = (f, k)
            elif k == 'short' and n > 1:
                n = max(1, int(n * f.get('frac', 0.5)))
                w.fired(f)
            elif k == 'kill' and f.get('when') == 'mid':
                n = int(n * f.get('frac', 0.5))
                kill = True
        elif getattr(self, '_pending', None):
            f, k = self._pending
            self._pending = None
            exc = err(errno.ENOSPC if k == 'enospc' else errno.EDQUOT if k == 'edquot' else errno.EIO, self.path)
            n = 0
        if exc is not None:
            raise exc
        if self._a:
            self.pos = len(self.node.data)
        if n:
            w.fs.write(self.node, self.pos, data[:n])
        self.pos += n
        if kill:
            w.kill_self(p, f)
        return n

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.node.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        p = self.p
        if size is None:
            size = self.pos
        fs_step(p, 'truncate', self.path)
        p.world.fs.truncate(self.node, size)
        return size

    def close(self):
        if not self.closed:
            self.p.fdtable.pop(self.fd, None)
            super().close()


def sim_open_raw(p, path, flags, mode=0o666, orig=None):
    fs = p.world.fs
    path = abspath(p, path)
    acc = flags & 3
    w = acc in (os.O_WRONLY, os.O_RDWR)
    r = acc in (os.O_RDONLY, os.O_RDWR)
    cls = 'open-w' if w else 'open-r'
    fs_step(p, cls, path)
    try:
        node = fs.resolve(path)
    except OSError as e:
        if e.errno != errno.ENOENT or not flags & os.O_CREAT:
            e.filename = orig if orig is not None else path
            raise
        try:
            node = fs.create(path, mode & 0o644)
        except OSError as e2:
            e2.filename = orig if orig is not None else path
            raise
    else:
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, orig or path)
        if node.kind == 'dir':
            if w:
                raise err(errno.EISDIR, orig or path)
        elif flags & os.O_TRUNC and w:
            if len(node.data):
                fs.truncate(node, 0)
            else:
                fs.touch_data(node)
    return SimRaw(p, path, node, r, w, bool(flags & os.O_APPEND))


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = cur()
    if p is None or (isinstance(file, int) and file < VFD):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, (str, bytes, int)) and not hasattr(file, '__fspath__'):
        raise TypeError('expected str, bytes or os.PathLike object, not ' + type(file).__name__)
    if not isinstance(mode, str):
        raise TypeError('open() argument \'mode\' must be str')
    m = set(mode)
    if m - set('rwxab+tU') or len(mode) > len(m):
        raise ValueError("invalid mode: '%s'" % mode)
    if sum(c in m for c in 'rwxa') != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if not isinstance(file, int):
        ap = abspath(p, file)
        if is_real(ap):
            if m & set('wxa+') and ap != '/dev/null':
                raise err(errno.EACCES, ap)
            return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in m
    upd = '+' in m
    if isinstance(file, int):
        raw = p.fdtable.get(file)
        if raw is None:
            raise err(errno.EBADF, None)
        if 'a' in m:
            raw._a = True
    else:
        fl = os.O_RDWR if upd else (os.O_RDONLY if 'r' in m else os.O_WRONLY)
        if 'w' in m:
            fl |= os.O_CREAT | os.O_TRUNC
        elif 'x' in m:
            fl |= os.O_CREAT | os.O_EXCL
        elif 'a' in m:
            fl |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, fl | os.O_CLOEXEC)
            raw = p.fdtable.get(fd)
            if raw is None:
                raise err(errno.EBADF, None)
        else:
            raw = sim_open_raw(p, file, fl, 0o666, orig=file)
        if raw.node.kind == 'dir':
            raw.close()
            raise err(errno.EISDIR, file)
    bs = p.world.plan.get('bufsize', 8192)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else bs
    reading = 'r' in m and not upd
    if upd:
        buf = io.BufferedRandom(raw, size)
    elif reading:
        buf = io.BufferedReader(raw, max(size, 4096))
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    try:
        t._CHUNK_SIZE = max(1, size)
    except Exception:
        pass
    t.mode = mode
    return t


# ------------------------------------------------------------------------------------------------ os.*
class SimDirEntry:
    def __init__(self, p, base, absbase, name):
        self._p, self.name = p, name
        self.path = posixpath.join(base, name) if base not in ('', None) else name
        self._abs = absbase + '/' + name

    def __fspath__(self):
        return self.path

    def _n(self, follow=True):
        return self._p.world.fs.lookup(self._abs, follow)

    def is_dir(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == 'file'

    def is_symlink(self):
        n = self._n(False)
        return n is not None and n.kind == 'link'

    def is_junction(self):
        return False

    def inode(self):
        return self._n(False).ino

    def stat(self, *, follow_symlinks=True):
        return os.stat(self._abs, follow_symlinks=follow_symlinks)

    def __repr__(self):
        return '<DirEntry %r>' % self.name


class SimScandir:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _dir_order(p, path, names):
    """Directory listing order is the file system's business: a per-plan pseudo-random but stable order."""
    s = p.world.plan.get('dir_order', 0)
    if s == 0:
        return sorted(names)
    return sorted(names, key=lambda n: core.h64(s, n))


def _wrap_path_fn(name, sim, npaths=1):
    real = getattr(os, name)
    REAL['os.' + name] = real

    def wrapper(*a, **k):
        p = cur()
        if p is None:
            return real(*a, **k)
        if a and isinstance(a[0], int) and a[0] < VFD:
            return real(*a, **k)
        if a and not isinstance(a[0], int):
            try:
                ap = abspath(p, a[0])
            except TypeError:
                return real(*a, **k)
            if is_real(ap) and name in ('stat', 'lstat', 'access', 'listdir', 'scandir', 'readlink', 'open'):
                return real(*a, **k)
        return sim(p, *a, **k)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _fd_or_path_node(p, path, follow=True):
    if isinstance(path, int):
        raw = p.fdtable.get(path)
        if raw is None:
            raise err(errno.EBADF, None)
        return raw.node
    try:
        return p.world.fs.resolve(abspath(p, path), follow)
    except OSError as e:
        e.filename = path
        raise


def _fix(e, *paths):
    e.filename = paths[0]
    if len(paths) > 1:
        e.filename2 = paths[1]
    return e


def o_stat(p, path, *, dir_fd=None, follow_symlinks=True):
    fs_step(p, 'stat', path if isinstance(path, int) else abspath(p, path))
    return p.world.fs.statres(_fd_or_path_node(p, path, follow_symlinks))


def o_lstat(p, path, *, dir_fd=None):
    fs_step(p, 'stat', abspath(p, path))
    return p.world.fs.statres(_fd_or_path_node(p, path, False))


def o_fstat(p, fd):
    return p.world.fs.statres(_fd_or_path_node(p, fd))


def o_access(p, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    fs_step(p, 'stat', abspath(p, path))
    return p.world.fs.lookup(abspath(p, path)) is not None


def o_listdir(p, path='.'):
    ap = abspath(p, path if path is not None else '.')
    fs_step(p, 'listdir', ap)
    n = _fd_or_path_node(p, path if path is not None else '.')
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, path)
    return _dir_order(p, ap, list(n.entries))


def o_scandir(p, path='.'):
    if path is None:
        path = '.'
    ap = abspath(p, path)
    fs_step(p, 'listdir', ap)
    n = _fd_or_path_node(p, path)
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, path)
    base = os.fspath(path)
    return SimScandir([SimDirEntry(p, base, ap, nm) for nm in _dir_order(p, ap, list(n.entries))])


def _mut(cls, fn):
    def f(p, path, *a, **k):
        ap = abspath(p, path)
        fs_step(p, cls, ap)
        try:
            return fn(p, ap, *a, **k)
        except OSError as e:
            raise _fix(e, path)
    return f


o_mkdir = _mut('mkdir', lambda p, ap, mode=0o777, *, dir_fd=None: p.world.fs.mkdir(ap, mode) and None)
o_rmdir = _mut('unlink', lambda p, ap, *, dir_fd=None: p.world.fs.rmdir(ap))
o_unlink = _mut('unlink', lambda p, ap, *, dir_fd=None: p.world.fs.unlink(ap))
o_chmod = _mut('chmod', lambda p, ap, mode, **k: setattr(p.world.fs.resolve(ap), 'mode', mode & 0o7777))


def o_rename(p, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, b = abspath(p, src), abspath(p, dst)
    fs_step(p, 'rename', a + ' -> ' + b)
    try:
        p.world.fs.rename(a, b)
    except OSError as e:
        raise _fix(e, src, dst)


def o_link(p, src, dst, **k):
    a, b = abspath(p, src), abspath(p, dst)
    fs_step(p, 'link', a + ' -> ' + b)
    p.world.fs.link(a, b)


def o_symlink(p, src, dst, target_is_directory=False, *, dir_fd=None):
    b = abspath(p, dst)
    fs_step(p, 'link', b)
    p.world.fs.symlink(os.fspath(src), b)


def o_readlink(p, path, *, dir_fd=None):
    n = _fd_or_path_node(p, path, False)
    if n.kind != 'link':
        raise err(errno.EINVAL, path)
    return n.target


def o_truncate(p, path, length):
    if not isinstance(path, int):
        fs_step(p, 'truncate', abspath(p, path))
    n = _fd_or_path_node(p, path)
    p.world.fs.truncate(n, length)


def o_utime(p, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    fs_step(p, 'utime', path)
    n = _fd_or_path_node(p, path)
    n.mtime = times[1] if times else (ns[1] / 1e9 if ns else p.world.fs.clock())


def o_open(p, path, flags, mode=0o777, *, dir_fd=None):
    return sim_open_raw(p, path, flags, mode, orig=path).fd


def _raw(p, fd):
    r = p.fdtable.get(fd)
    if r is None:
        raise err(errno.EBADF, None)
    return r


def o_close(p, fd):
    _raw(p, fd).close()


def o_write(p, fd, data):
    return _raw(p, fd).write(data)


def o_read(p, fd, n):
    b = bytearray(n)
    k = _raw(p, fd).readinto(b)
    return bytes(b[:k])


def o_lseek(p, fd, off, how):
    return _raw(p, fd).seek(off, how)


def o_fsync(p, fd):
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    r = _raw(p, fd)
    f = fs_step(p, 'fsync', r.path)
    p.world.fs.fsync(r.node)


def o_chdir(p, path):
    ap = abspath(p, path)
    n = _fd_or_path_node(p, path)
    if n.kind != 'dir':
        raise err(errno.ENOTDIR, path)
    p.cwd = posixpath.normpath(ap)


def o_statvfs(p, path):
    return os.statvfs_result((4096, 4096, 1 << 20, 1 << 20, 1 << 20, 1 << 20, 1 << 20, 1 << 20, 0, 255))


# ------------------------------------------------------------------------------------------------ subprocess
def exec_fault(p, f, args):
    """A program that cannot be started, or fails without doing anything."""
    if f is None:
        return None
    p.world.fired(f)
    k = f['kind']
    if k == 'interrupt':
        raise KeyboardInterrupt()
    if k in ('enoent', 'enomem', 'eagain', 'emfile'):
        raise err({'enoent': errno.ENOENT, 'enomem': errno.ENOMEM, 'eagain': errno.EAGAIN, 'emfile': errno.EMFILE}[k],
                  args if isinstance(args, str) else args[0])
    return f.get('rc', 1), f.get('out', ''), 'command failed\n'


class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        p = cur()
        self.args = args
        self.pid = 4242
        self._text = bool(text or universal_newlines or encoding or errors)
        h = p.world.subprocess_handler
        if h is None:
            raise StubGap('no subprocess handler for %r' % (args,))
        detail = args if isinstance(args, str) else ' '.join(str(os.fspath(x) if not isinstance(x, bytes) else x) for x in args)
        f = p.world.step(p, 'exec', detail[:200])
        rc, out, er = exec_fault(p, f, args) or h(p, args, shell=shell, cwd=cwd, env=env)
        self._rc = rc
        self.returncode = None

        def conv(s):
            if self._text:
                return s
            return s.encode()
        self._out = self._err = None
        if stderr == subprocess.STDOUT:
            out, er = out + er, ''
        if stdout == subprocess.PIPE:
            self._out = conv(out)
        elif stdout in (None,):
            p.stdout.write(out)
        elif stdout != subprocess.DEVNULL and hasattr(stdout, 'write'):
            stdout.write(out if not hasattr(stdout, 'mode') or 'b' not in getattr(stdout, 'mode', '') else out.encode())
        if stderr == subprocess.PIPE:
            self._err = conv(er)
        elif stderr is None:
            p.stdout.write(er)
        mk = io.StringIO if self._text else io.BytesIO
        self.stdout = mk(self._out) if self._out is not None else None
        self.stderr = mk(self._err) if self._err is not None else None
        self.stdin = mk() if stdin == subprocess.PIPE else None

    def communicate(self, input=None, timeout=None):
        self.returncode = self._rc
        o = self.stdout.read() if self.stdout is not None and not self.stdout.closed else self._out
        e = self.stderr.read() if self.stderr is not None and not self.stderr.closed else self._err
        return o, e

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        self.returncode = self._rc
        return self._rc

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.returncode = self._rc

    def _check_timeout(self, *a, **k):
        pass

    def __class_getitem__(cls, k):
        return cls


class _PopenDispatch(type):
    def __call__(cls, *a, **k):
        if cur() is None:
            return REAL['Popen'](*a, **k)
        return SimPopen(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (SimPopen, REAL['Popen']))

    def __getitem__(cls, k):
        return cls


class PopenDispatch(metaclass=_PopenDispatch):
    pass


def sim_system(cmd):
    p = cur()
    if p is None:
        return REAL['system'](cmd)
    f = p.world.step(p, 'exec', cmd[:200])
    rc, out, er = exec_fault(p, f, cmd) or p.world.subprocess_handler(p, cmd, shell=True, cwd=None, env=None)
    p.stdout.write(out + er)
    return rc << 8


# ------------------------------------------------------------------------------------------------ time
def _clock(name, fn, ns=False):
    real = getattr(_time, name)
    REAL['time.' + name] = real

    def wrapper(*a):
        p = cur()
        if p is None:
            return real(*a)
        p.world.step(p, 'clock', name, faultable=False)
        v = fn(p)
        return int(v * 1e9) if ns else v
    wrapper.__name__ = name
    setattr(_time, name, wrapper)


def _timefmt(name):
    real = getattr(_time, name)
    REAL['time.' + name] = real

    def wrapper(*a):
        p = cur()
        if p is None:
            return real(*a)
        if name == 'strftime':
            if len(a) < 2:
                a = (a[0], REAL['time.gmtime'](p.world.wall(p)))
            return real(*a)
        if not a or a[0] is None:
            a = (p.world.wall(p),)
        if name == 'localtime':
            return REAL['time.gmtime'](*a)      # the simulated machines run in UTC
        return real(*a)
    setattr(_time, name, wrapper)


_real_datetime, _real_date = _dt.datetime, _dt.date


class _DTMeta(type(_dt.datetime)):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_datetime)


class SimDateTime(_dt.datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        p = cur()
        if p is None:
            return _real_datetime.now(tz)
        p.world.step(p, 'clock', 'now', faultable=False)
        d = _real_datetime.fromtimestamp(p.world.wall(p), _dt.timezone.utc)
        return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        p = cur()
        if p is None:
            return _real_date.today()
        return SimDateTime.now().date()


# ------------------------------------------------------------------------------------------------ randomness
def sim_urandom(n):
    p = cur()
    if p is None:
        return REAL['urandom'](n)
    return p.world.entropy(p, n)


class SimGenerator(np.random.Generator):
    """A generator whose scripted draws take the extreme values the real one may legally return."""
    _script = None
    _n = 0

    def _ext(self):
        s = self._script
        self._n += 1
        return s.get(self._n) if s else None

    def uniform(self, low=0.0, high=1.0, size=None):
        r = super().uniform(low, high, size)
        e = self._ext()
        if e is None:
            return r
        p = cur()
        if p is not None:
            p.world.count_fault('extreme-draw')
        lo, hi = np.broadcast_arrays(np.asarray(low, float), np.asarray(high, float))
        if size is not None:
            lo, hi = np.broadcast_to(lo, np.shape(r)), np.broadcast_to(hi, np.shape(r))
        top = np.nextafter(hi, lo)
        m = e['mode']
        if m == 'low':
            out = lo.copy()
        elif m == 'high':
            out = top.copy()
        else:
            mask = np.array([(core.h64(e['salt'], i) & 1) for i in range(max(1, lo.size))], bool)[:lo.size].reshape(lo.shape)
            out = np.where(mask, lo, top)
        return float(out) if np.ndim(r) == 0 else out

    def random(self, size=None, dtype=np.float64, out=None):
        r = super().random(size, dtype, out)
        e = self._ext()
        if e is None:
            return r
        p = cur()
        if p is not None:
            p.world.count_fault('extreme-draw')
        v = 0.0 if e['mode'] == 'low' else float(np.nextafter(1.0, 0.0))
        if np.ndim(r) == 0:
            return v
        r[...] = v
        return r


def sim_default_rng(seed=None):
    p = cur()
    g = REAL['default_rng'](seed)
    if p is None or p.rng_extreme is None or isinstance(seed, np.random.Generator):
        return g
    s = SimGenerator(g.bit_generator)
    s._script = p.rng_extreme
    return s


def _py_seed(self, a=None, version=2):
    if a is None:
        p = cur()
        if p is not None:
            a = int.from_bytes(p.world.entropy(p, 16), 'big')
    return REAL['Random.seed'](self, a, version)


def sim_id(obj):
    """Object addresses repeat from process to process, as they do for real processes running the same program."""
    p = _threads.get(_ident())
    r = REAL['id'](obj)
    if p is None:
        return r
    v = p.ids.get(r)
    if v is not None and (v[0] is None or v[0]() is obj):
        return v[1]
    try:
        ref = weakref.ref(obj)
        p.nids += 1
        n = 0x7f0000000000 + 16 * p.nids
    except TypeError:
        ref, n = None, 0x7e0000000000 + 16 * len(p.ids)
    p.ids[r] = (ref, n)
    return n


def sim_hash(obj):
    """Text hashes differ from process to process (hash randomisation), for the repository's own code."""
    p = _threads.get(_ident())
    if p is None or not sys._getframe(1).f_code.co_filename.startswith('/sim/repo'):
        return REAL['hash'](obj)

    def salted(o):
        if isinstance(o, (str, bytes)):
            return core.h64(p.world.seed, p.entropy, 'hash', o) >> 1
        if isinstance(o, tuple):
            return REAL['hash'](tuple(salted(x) for x in o))
        return REAL['hash'](o)
    return salted(obj)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    REAL['open'] = builtins.open
    REAL['id'] = builtins.id
    builtins.id = sim_id
    REAL['hash'] = builtins.hash
    builtins.hash = sim_hash
    builtins.open = sim_open
    io.open = sim_open
    for nm, fn in dict(stat=o_stat, lstat=o_lstat, fstat=o_fstat, access=o_access, listdir=o_listdir, scandir=o_scandir,
                       mkdir=o_mkdir, rmdir=o_rmdir, unlink=o_unlink, remove=o_unlink, chmod=o_chmod, rename=o_rename,
                       replace=o_rename, link=o_link, symlink=o_symlink, readlink=o_readlink, truncate=o_truncate,
                       ftruncate=o_truncate, utime=o_utime, open=o_open, close=o_close, write=o_write, read=o_read,
                       lseek=o_lseek, fsync=o_fsync, fdatasync=o_fsync, chdir=o_chdir, statvfs=o_statvfs).items():
        _wrap_path_fn(nm, fn)
    real_getcwd = os.getcwd
    os.getcwd = lambda: (cur().cwd if cur() is not None else real_getcwd())
    real_pid = os.getpid
    os.getpid = lambda: (cur().pid if cur() is not None else real_pid())
    real_ppid = os.getppid
    os.getppid = lambda: (1 if cur() is not None else real_ppid())
    real_sync = os.sync

    def sim_sync():
        p = cur()
        if p is None:
            return real_sync()
        fs_step(p, 'fsync', 'sync')
        p.world.fs.sync_all()
    os.sync = sim_sync
    for nm in ('fork', 'execv', 'execve', '_exit', 'kill', 'killpg', 'posix_spawn', 'nice', 'setuid', 'chown', 'chroot', 'mknod', 'mkfifo'):
        if hasattr(os, nm):
            def mk(nm, real):
                def f(*a, **k):
                    p = cur()
                    if p is None:
                        return real(*a, **k)
                    if nm == '_exit':
                        p.exit_code_forced = a[0] if a else 0
                        p.world.kill_self(p)
                    raise StubGap('os.%s is not simulated' % nm)
                return f
            setattr(os, nm, mk(nm, getattr(os, nm)))
    REAL['system'] = os.system
    os.system = sim_system
    REAL['Popen'] = subprocess.Popen
    subprocess.Popen = PopenDispatch
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    REAL['urandom'] = os.urandom
    os.urandom = sim_urandom
    _random._urandom = sim_urandom
    REAL['Random.seed'] = _random.Random.seed
    _random.Random.seed = _py_seed
    for nm, fn in (('time', lambda p: p.world.wall(p)), ('monotonic', lambda p: p.world.mono(p)),
                   ('perf_counter', lambda p: p.world.mono(p)), ('process_time', lambda p: p.nops * 1e-3)):
        _clock(nm, fn)
        _clock(nm + '_ns', fn, ns=True)
    for nm in ('gmtime', 'localtime', 'ctime', 'strftime'):
        _timefmt(nm)
    real_sleep = _time.sleep

    def sim_sleep(dt):
        p = cur()
        if p is None:
            return real_sleep(dt)
        p.world.sleep(p, dt)
    _time.sleep = sim_sleep
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    uuid._generate_time_safe = None
    REAL['getnode'] = uuid.getnode
    uuid.getnode = lambda: 0x0242ac110002
    import socket
    rg = socket.gethostname
    socket.gethostname = lambda: (cur().host.name if cur() is not None else rg())
    import platform
    rn = platform.node
    platform.node = lambda: (cur().host.name if cur() is not None else rn())
    tempfile.tempdir = '/tmp'
    import numpy.lib.format as nlf
    for nm in ('isfileobj', '_isfileobj'):
        rif = getattr(nlf, nm, None)
        if rif is not None:
            setattr(nlf, nm, lambda f, rif=rif: False if isinstance(getattr(f, 'raw', f), SimRaw) else rif(f))
    REAL['default_rng'] = np.random.default_rng
    np.random.default_rng = sim_default_rng
    import fcntl
    for nm in ('flock', 'lockf', 'fcntl'):
        def mk2(real):
            def f(fd, *a):
                if cur() is None:
                    return real(fd, *a)
                return 0
            return f
        setattr(fcntl, nm, mk2(getattr(fcntl, nm)))
