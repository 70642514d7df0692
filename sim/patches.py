"""Seams: the places where Python code meets the outside world are replaced, once per worker process, by dispatchers that serve simulated
threads from the simulator and everybody else from the real system.  No mutation made by a simulated thread can reach the real file system."""
import _thread
import asyncio
import atexit
import builtins
import concurrent.futures.thread as cft
import errno
import fcntl
import io
import logging
import os
import queue
import shutil
import signal
import stat as st
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from . import kernel
from .kernel import HarnessError, SimKilled, SimLock, Unsupported, current
from .shell import SimPopen

REAL = {}
PASS_PREFIXES = []


def passes(path):
    """Read-only access to Python's own files (source lines for tracebacks and the like) goes to the real file system."""
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return any(p.startswith(x) for x in PASS_PREFIXES)


def unsupported(k, what):
    k.unsupported = k.unsupported or what
    raise Unsupported(what)


def install(licant_dir):
    if REAL:
        return
    PASS_PREFIXES.extend([os.path.dirname(os.__file__) + "/", licant_dir + "/",
                          os.path.dirname(os.path.abspath(__file__)) + "/", "<"])
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)

    def patch(mod, name, virt):
        real = getattr(mod, name, None)
        if real is None:
            return
        REAL.setdefault((mod.__name__, name), real)

        def disp(*a, **kw):
            k, t = current()
            if k is None:
                return real(*a, **kw)
            return virt(k, *a, **kw)
        disp.__name__ = name
        disp.__qualname__ = name
        disp._real = real
        setattr(mod, name, disp)
        return disp

    real_open = builtins.open

    # ---- files
    def v_open(k, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, int) and passes(file) and not any(c in mode for c in "wax+"):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return k.fs.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    disp = patch(builtins, "open", v_open)
    io.open = disp

    real_stat, real_lstat = os.stat, os.lstat

    def nofd(k, kw):
        for n in ("dir_fd", "src_dir_fd", "dst_dir_fd"):
            if kw.get(n) is not None:
                unsupported(k, "dir_fd")

    def v_stat(k, path, *, dir_fd=None, follow_symlinks=True):
        if dir_fd is not None:
            unsupported(k, "dir_fd")
        if not isinstance(path, int) and passes(path):
            return real_stat(path, follow_symlinks=follow_symlinks)
        return k.fs.stat(path, follow_symlinks)

    def v_lstat(k, path, *, dir_fd=None):
        return v_stat(k, path, dir_fd=dir_fd, follow_symlinks=False)
    patch(os, "stat", v_stat)
    patch(os, "lstat", v_lstat)
    patch(os, "fstat", lambda k, fd: k.fs._stat(fd) if fd in k.fs.fds else REAL["os", "fstat"](fd))

    def v_access(k, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            v_stat(k, path)
            return True
        except (OSError, ValueError):
            return False
    patch(os, "access", v_access)

    def v_listdir(k, path="."):
        k.fs.op("listdir", path)
        return k.fs.listdir(path)
    patch(os, "listdir", v_listdir)

    class DirEntry:
        def __init__(self, k, base, name):
            self.k, self.name, self.path = k, name, os.path.join(base, name) if base != "." or True else name
            self._full = os.path.join(base, name)

        def __fspath__(self):
            return self.path

        def _s(self, follow):
            try:
                return self.k.fs._stat(self._full, follow).st_mode
            except OSError:
                return 0

        def is_dir(self, *, follow_symlinks=True):
            return st.S_ISDIR(self._s(follow_symlinks))

        def is_file(self, *, follow_symlinks=True):
            return st.S_ISREG(self._s(follow_symlinks))

        def is_symlink(self):
            return st.S_ISLNK(self._s(False))

        def is_junction(self):
            return False

        def stat(self, *, follow_symlinks=True):
            return self.k.fs.stat(self._full, follow_symlinks)

        def inode(self):
            return self.k.fs._stat(self._full, False).st_ino

    class Scan:
        def __init__(self, k, path):
            self.it = iter([DirEntry(k, os.fspath(path), n) for n in k.fs.listdir(path)])

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.it = iter(())

    def v_scandir(k, path="."):
        if isinstance(path, int):
            unsupported(k, "scandir(fd)")
        k.fs.op("listdir", path)
        return Scan(k, path)
    patch(os, "scandir", v_scandir)

    def v_mkdir(k, path, mode=0o777, *, dir_fd=None):
        k.fs.op("mkdir", path)
        k.fs.mkdir(path)
    patch(os, "mkdir", v_mkdir)

    def v_rmdir(k, path, *, dir_fd=None):
        k.fs.op("rmdir", path)
        k.fs.rmdir(path)
    patch(os, "rmdir", v_rmdir)

    def v_unlink(k, path, *, dir_fd=None):
        k.fs.op("unlink", path)
        k.fs.unlink(path)
    patch(os, "unlink", v_unlink)
    patch(os, "remove", v_unlink)

    def v_rename(k, a, b, **kw):
        nofd(k, kw)
        k.fs.op("rename", b)
        k.fs.rename(a, b)
    patch(os, "rename", v_rename)
    patch(os, "replace", v_rename)

    def v_symlink(k, a, b, target_is_directory=False, **kw):
        nofd(k, kw)
        k.fs.op("symlink", b)
        k.fs.symlink(a, b)
    patch(os, "symlink", v_symlink)

    def v_link(k, a, b, **kw):
        kw.pop("follow_symlinks", None)
        nofd(k, kw)
        k.fs.op("link", b)
        k.fs.link(a, b)
    patch(os, "link", v_link)

    def v_readlink(k, path, *, dir_fd=None):
        k.fs.op("readlink", path)
        return k.fs.readlink(path)
    patch(os, "readlink", v_readlink)

    def v_utime(k, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        k.fs.op("utime", path)
        t = None
        if ns is not None:
            t = int(ns[1])
        elif times is not None:
            t = int(times[1] * 1e9)
        k.fs.utime(path, t)
    patch(os, "utime", v_utime)

    def v_chmod(k, path, mode, *, dir_fd=None, follow_symlinks=True):
        k.fs.op("chmod", path)
        nd = k.fs.fds[path].node if isinstance(path, int) else k.fs._find(path)
        nd.mode = mode & 0o7777
    patch(os, "chmod", v_chmod)
    patch(os, "fchmod", lambda k, fd, mode: v_chmod(k, fd, mode))

    def v_chown(k, path, *a, **kw):
        k.fs.op("chown", path)
        k.fs._find(path)
    patch(os, "chown", v_chown)
    patch(os, "lchown", v_chown)
    patch(os, "fchown", lambda k, *a: None)

    def v_truncate(k, path, length):
        if isinstance(path, int):
            k.fs.op("write", k.fs.fds[path].real)
            k.fs.fds[path].truncate(length)
        else:
            k.fs.op("write", path)
            nd = k.fs._find(path)
            del nd.data[length:]
            nd.mtime = k.fs.stamp()
    patch(os, "truncate", v_truncate)
    patch(os, "ftruncate", v_truncate)
    patch(os, "listxattr", lambda k, *a, **kw: [])
    patch(os, "statvfs", lambda k, *a: unsupported(k, "statvfs"))
    patch(os, "umask", lambda k, m: 0o022)

    def v_osopen(k, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None:
            unsupported(k, "dir_fd")
        nd = None
        if flags & getattr(os, "O_DIRECTORY", 0) or (flags & 3 == os.O_RDONLY and k.fs._exists(path) and k.fs._find(path).kind == "d"):
            flags |= os.O_DIRECTORY
        return k.fs.open_raw(path, flags, mode).fd
    patch(os, "open", v_osopen)

    def fdop(name, virt):
        real = getattr(os, name)

        def f(k, fd, *a):
            v = k.fs.fds.get(fd)
            if v is None:
                if fd in (1, 2) and name == "write":
                    return k.out.write_bytes(fd, a[0])
                if fd in (0, 1, 2):
                    return None if name in ("fsync", "close") else real(fd, *a)
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            return virt(v, *a)
        patch(os, name, f)
    fdop("close", lambda v: v.close())
    fdop("read", lambda v, n: _fdread(v, n))
    fdop("write", lambda v, d: v.write(d))
    fdop("lseek", lambda v, p, w: v.seek(p, w))
    fdop("fsync", lambda v: v.fsync())
    fdop("fdatasync", lambda v: v.fsync())

    def v_fdopen(k, fd, mode="r", buffering=-1, encoding=None, *a, **kw):
        return k.fs.open(fd, mode, buffering, encoding, *a, **kw)
    patch(os, "fdopen", v_fdopen)
    patch(os, "sync", lambda k: None)
    patch(os, "isatty", lambda k, fd: False)
    patch(os, "getcwd", lambda k: k.fs.cwd)

    def v_chdir(k, path):
        k.fs.op("chdir", path)
        nd = k.fs._find(path)
        if nd.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        k.fs.cwd = k.fs._walk(path)[3]
    patch(os, "chdir", v_chdir)

    # ---- processes and machine
    def v_system(k, cmd):
        rc = SimPopen(cmd, shell=True).wait()
        return -rc if rc < 0 else (rc & 0xFF) << 8
    patch(os, "system", v_system)
    patch(os, "cpu_count", lambda k: k.cfg.get("cpus", 8))
    patch(os, "sched_getaffinity", lambda k, pid: set(range(k.cfg.get("cpus", 8))))
    patch(os, "getpid", lambda k: k.pids.get(kernel.get_ident(), 100 + k.epoch))
    patch(os, "getppid", lambda k: 99)
    patch(os, "fork", lambda k: unsupported(k, "fork"))
    patch(os, "pipe", lambda k: unsupported(k, "os.pipe"))
    patch(os, "posix_spawn", lambda k, *a, **kw: unsupported(k, "posix_spawn"))
    for n in ("execv", "execve", "execvp", "execvpe", "execl", "execlp", "spawnv", "spawnl", "spawnvp", "spawnve", "mkfifo", "mknod", "chroot",
              "removexattr", "setxattr", "sendfile", "copy_file_range", "preadv", "pwritev", "pread", "pwrite", "waitpid", "wait"):
        patch(os, n, (lambda n: lambda k, *a, **kw: unsupported(k, "os." + n))(n))

    def v_kill(k, pid, sig):
        for p in list(k.procs):
            if p.pid == pid:
                p.kill(int(sig))
                return
        if pid == 100 + k.epoch and sig == signal.SIGINT:
            k.interrupt()
            return
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    patch(os, "kill", v_kill)
    patch(os, "killpg", v_kill)

    def v_exit(k, code):
        k.exit_code = code & 0xFF
        k._die("exit")
        raise SimKilled
    patch(os, "_exit", v_exit)
    patch(os, "urandom", lambda k, n: bytes(k.prng.randrange(256) for _ in range(n)))
    real_popen = subprocess.Popen

    class PopenDispatch(SimPopen):
        def __new__(cls, *a, **kw):
            if current()[0] is None:
                return real_popen(*a, **kw)
            return object.__new__(cls)
    PopenDispatch.__name__ = "Popen"
    subprocess.Popen = PopenDispatch

    # ---- time
    patch(time, "time", lambda k: k.now_ns / 1e9)
    patch(time, "time_ns", lambda k: k.now_ns)
    patch(time, "monotonic", lambda k: (k.now_ns - k.start_ns) / 1e9)
    patch(time, "monotonic_ns", lambda k: k.now_ns - k.start_ns)
    patch(time, "perf_counter", lambda k: (k.now_ns - k.start_ns) / 1e9)
    patch(time, "perf_counter_ns", lambda k: k.now_ns - k.start_ns)
    patch(time, "process_time", lambda k: 0.0)
    patch(time, "thread_time", lambda k: 0.0)
    patch(time, "sleep", lambda k, s: k.sleep(s) if s > 0 else k.yield_point("sleep"))
    threading._time = time.monotonic
    queue.time = time.monotonic

    # ---- threads and locks
    real_alloc = _thread.allocate_lock

    def lock_factory():
        return SimLock() if current()[0] is not None else real_alloc()
    real_rlock = threading._CRLock
    threading.Lock = lock_factory
    threading._allocate_lock = lock_factory

    def rlock_factory(*a, **kw):
        if current()[0] is not None:
            return threading._PyRLock(*a, **kw)
        return real_rlock(*a, **kw)
    threading.RLock = rlock_factory
    real_sentinel = threading._set_sentinel

    def v_sentinel(k):
        me = k.by_ident[_thread.get_ident()]
        me.sentinel = SimLock()
        return me.sentinel
    patch(threading, "_set_sentinel", v_sentinel)

    def v_start(k, func, args=(), kwargs={}):
        t = k.spawn(func, tuple(args), dict(kwargs))
        k.count("threads")
        k.yield_point("lock")
        return t.eid
    patch(threading, "_start_new_thread", v_start)
    real_simple = queue.SimpleQueue

    def simple_factory():
        return queue._PySimpleQueue() if current()[0] is not None else real_simple()
    queue.SimpleQueue = simple_factory
    cft._global_shutdown_lock = SimLock()
    real_adjust = cft.ThreadPoolExecutor._adjust_thread_count

    def adjust(self):
        k = kernel.K
        if k is not None and not any(x is self for x in k.pools):
            k.pools.append(self)
        return real_adjust(self)
    cft.ThreadPoolExecutor._adjust_thread_count = adjust
    real_main = threading.main_thread

    def v_main(k):
        for t in k.threads:
            if t.is_main:
                th = threading._active.get(t.ident)
                if th is not None:
                    return th
                if t.ident == _thread.get_ident():
                    return threading.current_thread()
        return real_main()
    patch(threading, "main_thread", v_main)
    patch(threading, "excepthook", v_excepthook)

    def thread_hash(self):
        h = self.__dict__.get("_simhash")
        if h is None:
            k = kernel.K
            if k is None:
                return object.__hash__(self)
            h = self.__dict__["_simhash"] = k.next_hash()
        return h
    threading.Thread.__hash__ = thread_hash
    patch(threading, "_register_atexit", lambda k, f, *a, **kw: k.texit.append((f, a, kw)))
    patch(atexit, "register", lambda k, f, *a, **kw: (k.atexit.append((f, a, kw)), f)[1])
    patch(atexit, "unregister", lambda k, f: None)

    # ---- signals
    def v_signal(k, sig, handler):
        old = k.handlers.get(int(sig), signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL)
        k.handlers[int(sig)] = handler
        return old
    patch(signal, "signal", v_signal)
    patch(signal, "getsignal", lambda k, sig: k.handlers.get(int(sig), signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL))
    patch(signal, "set_wakeup_fd", lambda k, *a, **kw: -1)
    patch(signal, "siginterrupt", lambda k, *a: None)
    patch(signal, "raise_signal", lambda k, sig: k.interrupt() if sig == signal.SIGINT else None)
    patch(signal, "alarm", lambda k, *a: unsupported(k, "alarm"))
    patch(signal, "setitimer", lambda k, *a: unsupported(k, "setitimer"))
    patch(signal, "pthread_sigmask", lambda k, *a: set())
    patch(fcntl, "flock", lambda k, *a: None)
    patch(fcntl, "lockf", lambda k, *a: None)

    # ---- the rest
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return "sim%06d" % self.n
    real_names = tempfile._get_candidate_names

    def v_names(k):
        if k.names is None:
            k.names = Names()
        return k.names
    patch(tempfile, "_get_candidate_names", v_names)
    patch(tempfile, "_get_default_tempdir", lambda k, *a: "/tmp")

    def v_quit(code=None):
        raise SystemExit(code)
    builtins.exit = builtins.quit = v_quit
    sys.stdout = StreamDispatch(sys.stdout, 1)
    sys.stderr = StreamDispatch(sys.stderr, 2)
    sys.stdin = StdinDispatch(sys.stdin)
    sys.unraisablehook = lambda a: None


def v_excepthook(k, args):
    if args.exc_type is SimKilled or args.exc_type is SystemExit:
        return
    k.log("thread_exception", what=repr(args.exc_value), name=None)
    if isinstance(args.exc_value, HarnessError):
        k.harness_errors.append(repr(args.exc_value))
    k.out.write(2, "Exception in thread: %r\n" % (args.exc_value,))


def _fdread(v, n):
    b = bytearray(n)
    m = v.readinto(memoryview(b))
    return bytes(b[:m])


class StdinDispatch:
    def __init__(self, real):
        self.real = real

    def __getattr__(self, n):
        if current()[0] is None:
            return getattr(self.real, n)
        return getattr(_EMPTY, n)


_EMPTY = io.StringIO("")


class Output:
    """What a simulated process printed, in order: [(fd, entity id, bytes)]."""

    def __init__(self, k):
        self.k = k
        self.parts = []
        self.fail_after = None    # number of writes to stdout that still succeed
        self.failed = False
        self.enc = ("utf-8", "strict")

    def _check(self, fd):
        if fd == 1 and self.failed:
            raise OSError(self.err, os.strerror(self.err))
        if fd == 1 and self.fail_after is not None:
            self.fail_after -= 1
            if self.fail_after < 0:
                self.failed = True
                self.k.count("fault.stdout")
                self.k.log("stdout_fault")
                raise OSError(self.err, os.strerror(self.err))
    err = errno.EPIPE

    def write(self, fd, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        data = s.encode(self.enc[0], self.enc[1] if fd == 1 else "backslashreplace")
        if not data:
            return 0
        self.write_bytes(fd, data)
        return len(s)

    def write_bytes(self, fd, data):
        k = self.k
        data = bytes(data)
        k.yield_point("print")
        self._check(fd)
        _, t = current()
        self.parts.append((fd, t.eid if t is not None else 0, data))
        k.log("print", fd=fd, n=len(data))
        return len(data)

    def flush(self, fd):
        self.k.yield_point("print")
        if fd == 1 and self.failed:
            raise OSError(self.err, os.strerror(self.err))

    def relay(self, data):
        """Output a command wrote straight to the terminal."""
        self.parts.append((1, -1, bytes(data)))

    def text(self, fd=1):
        return b"".join(d for f, _, d in self.parts if f == fd)


class BufferDispatch:
    def __init__(self, fd):
        self.fd = fd

    def write(self, b):
        k, t = current()
        if k is None:
            return len(b)
        return k.out.write_bytes(self.fd, b)

    def flush(self):
        k, t = current()
        if k is not None:
            k.out.flush(self.fd)


class StreamDispatch(io.TextIOBase):
    def __init__(self, real, fd):
        self.real = real
        self.fd = fd
        self.buffer_ = BufferDispatch(fd)

    def write(self, s):
        k, t = current()
        if k is None:
            return self.real.write(s)
        return k.out.write(self.fd, s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        k, t = current()
        if k is None:
            return self.real.flush()
        return k.out.flush(self.fd)

    @property
    def buffer(self):
        return self.buffer_ if current()[0] is not None else self.real.buffer

    @property
    def encoding(self):
        return "utf-8"

    @property
    def errors(self):
        return "strict"

    def reconfigure(self, **kw):
        k, t = current()
        if k is not None:
            k.out.enc = (kw.get("encoding") or k.out.enc[0], kw.get("errors") or k.out.enc[1])

    def isatty(self):
        return False

    def fileno(self):
        if current()[0] is None:
            return self.real.fileno()
        return self.fd

    def writable(self):
        return True

    def close(self):
        pass
