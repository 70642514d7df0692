"""A simulated licant process: fresh import of the real licant sources, a body to run, an exit status."""
import concurrent.futures.thread as cft
import gc
import importlib.abc
import importlib.util
import os
import sys
import threading
import types

from . import aloop, kernel, patches
from .kernel import Chooser, HarnessError, Kernel, SimKilled, Unsupported, current
from .vfs import VFS, hash_str

REPO = os.environ.get("LICANT_REPO", "/repo")
LICANT = os.path.join(REPO, "licant")
TOOL = 3
_codes = {}
_installed = False


def instrument(code):
    """Ask for a call-back on every line of this code object and those nested in it."""
    mon = sys.monitoring
    mon.set_local_events(TOOL, code, mon.events.LINE)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            instrument(c)


def _on_line(code, line):
    k, t = current()
    if k is not None:
        k.line_point()


def setup():
    """Once per worker process."""
    global _installed
    if _installed:
        return
    _installed = True
    patches.install(LICANT)
    aloop.install()
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "licant-sim")
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    real_open = patches.REAL["builtins", "open"]
    for dp, dn, fn in os.walk(LICANT):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            path = os.path.join(dp, f)
            rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, ".")
            pkg = rel.endswith(".__init__")
            if pkg:
                rel = rel[:-9]
            with real_open(path, "rb") as fh:
                code = compile(fh.read(), path, "exec", dont_inherit=True)
            instrument(code)
            _codes[rel] = (code, pkg, path)
    sys.meta_path.insert(0, _Finder())
    for m in [m for m in sys.modules if m == "licant" or m.startswith("licant.")]:
        del sys.modules[m]
    # whatever licant imports from the standard library is loaded now, for real
    import licant                      # noqa
    for name in _codes:
        if name.endswith("__main__"):
            continue
        try:
            importlib.import_module(name)
        except Exception:
            pass
    _forget()
    import encodings.idna, encodings.ascii, encodings.latin_1, traceback, glob, tempfile, multiprocessing.pool  # noqa
    gc.collect()
    gc.freeze()
    gc.disable()


def _forget():
    for m in [m for m in sys.modules if m == "licant" or m.startswith("licant.")]:
        del sys.modules[m]


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        c = _codes.get(name)
        if c is None:
            return None
        spec = importlib.util.spec_from_loader(name, self, origin=c[2], is_package=c[1])
        spec.has_location = True
        if c[1]:
            spec.submodule_search_locations = [os.path.dirname(c[2])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_codes[module.__spec__.name][0], module.__dict__)


def fresh_module(name="licant.licant_libs"):
    """One module of a second, independent copy of licant."""
    _forget()
    importlib.import_module("licant")
    m = importlib.import_module(name)
    _stabilise()
    return m


def _stable_hash(self):
    d = self.__dict__
    h = d.get("_sim_hash_")
    if h is None:
        k = kernel.K
        h = d["_sim_hash_"] = k.next_hash() if k is not None else 0
    return h


def _stabilise():
    """Hashes that come from addresses would make set order, and with it the execution, differ from run to run."""
    for name in sorted(m for m in sys.modules if m == "licant" or m.startswith("licant.")):
        mod = sys.modules[name]
        for c in list(vars(mod).values()):
            if isinstance(c, type) and c.__module__ == name and c.__hash__ is object.__hash__ and not issubclass(c, BaseException):
                try:
                    c.__hash__ = _stable_hash
                except TypeError:
                    pass


class Result:
    """What became of one simulated process."""

    def __init__(self):
        self.code = None          # exit status, None if it never exited by itself
        self.why = None           # None, "crash", "deadlock", "no-progress", "exit"
        self.exc = None
        self.value = None
        self.out = None
        self.first = self.last = 0
        self.interrupted = False
        self.phases = {}

    def text(self, fd=1):
        return self.out.text(fd).decode("utf-8", "replace")


class Sim:
    def __init__(self, chooser, cfg):
        setup()
        self.k = Kernel(chooser, cfg)
        self.fs = self.k.fs = VFS(self.k)
        self.wall = cfg.get("wall", 40.0)
        kernel.K = self.k
        self.k.out = patches.Output(self.k)
        for d in ("/tmp", "/home/user", "/w", "/etc", "/usr/local"):
            self.fs._mkdirs(d)

    def close(self):
        kernel.K = None
        _forget()

    def process(self, body, argv=("make.py",), cwd="/w", env=None, before=None):
        """Run body(licant) as the main program of a fresh process."""
        k = self.k
        res = Result()
        k.out = res.out = patches.Output(k)
        old_env = dict(os.environ)
        res.first = len(k.events)
        cft._threads_queues.clear()
        k.pools.clear()
        cft._shutdown = False
        _forget()
        argv0 = sys.argv
        path0 = list(sys.path)
        main0 = sys.modules.get("__main__")

        def main():
            me = k.by_ident[threading.get_ident()]
            try:
                self._main(k, me, res, body, argv, before)
            except SimKilled:
                pass

        self.fs.cwd = cwd
        try:
            os.environ.clear()
            os.environ.update({"HOME": "/home/user", "PATH": "/usr/local/bin:/usr/bin:/bin", "PYTHONHASHSEED": "0"})
            os.environ.update(env or {})
            sys.argv = list(argv)
            k.log("process", argv=list(argv))
            k.run_process(main, wall=self.wall)
        finally:
            os.environ.clear()
            os.environ.update(old_env)
            sys.argv = argv0
            sys.path[:] = path0
            _forget()
        res.last = len(k.events)
        res.why = k.why_killed
        res.interrupted = k.interrupted
        if res.why == "exit":
            res.code = k.exit_code
            res.why = None
        if k.harness_errors:
            raise HarnessError("; ".join(k.harness_errors))
        if res.why in ("deadlock", "no-progress"):
            res.code = None
        return res

    def _main(self, k, me, res, body, argv, before):
        code = 1
        try:
            try:
                me.no_yield += 1
                try:
                    import licant
                    for n in sorted(_codes):
                        if not n.endswith("__main__"):
                            try:
                                importlib.import_module(n)
                            except ImportError:
                                pass
                    _stabilise()
                    if before is not None:
                        before(licant)
                finally:
                    me.no_yield -= 1
                res.value = body(licant)
                code = 0
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else c & 0xFF if isinstance(c, int) else 1
                if c is not None and not isinstance(c, int):
                    k.out.write(2, "%s\n" % (c,))
            except KeyboardInterrupt:
                code = 130
                res.exc = "KeyboardInterrupt"
            except SimKilled:
                raise
            except HarnessError as e:
                if not isinstance(e, Unsupported):
                    k.harness_errors.append(repr(e))
                code = 1
            except BaseException as e:
                res.exc = "%s: %s" % (type(e).__name__, e)
                code = 1
        finally:
            k.exiting = True
            me.no_int += 1
            me.pending_exc = None
        k.log("main_done", code=code)
        # the interpreter goes down: wait for threads, run exit functions, flush
        for f, a, kw in reversed(k.texit):
            f(*a, **kw)
        cft._python_exit()
        cft._shutdown = False
        for t in list(threading._active.values()):
            if t.ident in k.by_ident and t.ident != me.ident and not t.daemon and t.is_alive():
                t.join()
        for f, a, kw in reversed(k.atexit):
            try:
                f(*a, **kw)
            except Exception:
                pass
        try:
            k.out.flush(1)
        except OSError:
            code = 120
        res.code = code
        k.log("exit", code=code)
        if len(k.threads) > 1:
            k.exit_code = code
            k._die("exit")


def event_digest(k):
    """A fingerprint of everything that happened."""
    import hashlib
    h = hashlib.sha256()
    for e in k.events:
        if e["ev"] == "print":
            continue
        h.update(repr(sorted((a, str(b)) for a, b in e.items())).encode())
    return h.hexdigest()
