"""Simulated commands: a small shell and the tools build scripts call, run as interleaved simulated processes.

Every tool reads and writes the simulated file system in several steps, takes simulated time, may print through pipes of finite capacity and
may be told (plan) to fail or to be killed before, while or after writing its output."""
import hashlib
import os
import posixpath
import re
import shlex
import stat
import subprocess

from .kernel import Entity, HarnessError, SimKilled, Unsupported, current
from . import kernel

PUNCT = ";&|<>()"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode("utf-8", "surrogateescape")
        h.update(b"%d:" % len(p))
        h.update(p)
    return h.hexdigest()[:24]


# --------------------------------------------------------------------------------------------------------------------------
class Pipe:
    def __init__(self, k, capacity):
        self.k = k
        self.cap = capacity
        self.buf = bytearray()
        self.eof = False
        self.read_closed = False
        self.readers = []
        self.writer = None
        self.total = bytearray()   # everything ever written, for the oracle

    def wake_readers(self):
        for r in self.readers:
            self.k.wake(r)

    def take(self, n=-1):
        d = bytes(self.buf) if n is None or n < 0 else bytes(self.buf[:n])
        del self.buf[:len(d)]
        if self.writer is not None:
            self.k.wake(self.writer)
        return d


class PipeReader:
    """The parent's end of a pipe."""

    def __init__(self, pipe, text=None):
        self.pipe = pipe
        self.text = text
        self.closed = False

    def read(self, n=-1):
        k, me = current()
        if k is None:
            return b"" if not self.text else ""
        out = bytearray()
        k.yield_point("proc")
        want = None if n is None or n < 0 else n
        while want is None or len(out) < want:
            if self.pipe.buf:
                out += self.pipe.take(-1 if want is None else want - len(out))
                continue
            if self.pipe.eof:
                break
            self._block(k, me)
        return self._conv(bytes(out))

    def read1(self, n=-1):
        k, me = current()
        k.yield_point("proc")
        while not self.pipe.buf and not self.pipe.eof:
            self._block(k, me)
        return self._conv(self.pipe.take(n))

    def _block(self, k, me, reason="pipe"):
        self.pipe.readers.append(me)
        try:
            k.block(reason)
        finally:
            if me in self.pipe.readers:
                self.pipe.readers.remove(me)

    def _conv(self, b):
        if self.text:
            enc, errs = self.text
            return b.decode(enc, errs).replace("\r\n", "\n")
        return b

    def readline(self, n=-1):
        out = bytearray()
        k, me = current()
        k.yield_point("proc")
        while True:
            i = self.pipe.buf.find(b"\n")
            if i >= 0:
                out += self.pipe.take(i + 1)
                break
            if self.pipe.buf:
                out += self.pipe.take()
                continue
            if self.pipe.eof:
                break
            self._block(k, me)
        return self._conv(bytes(out))

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def close(self):
        self.closed = True
        self.pipe.read_closed = True
        if self.pipe.writer is not None:
            self.pipe.k.wake(self.pipe.writer)

    def fileno(self):
        raise Unsupported("fileno of a pipe")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# --------------------------------------------------------------------------------------------------------------------------
class Sink:
    """Where a command's stream goes."""

    def __init__(self, kind, pipe=None, node=None, pos=0, real=None, buf=None):
        self.kind, self.pipe, self.node, self.pos, self.real, self.buf = kind, pipe, node, pos, real, buf


class Proc(Entity):
    """A simulated process group: the shell and whatever it runs."""

    def __init__(self, k, fs, cmd, shell, stdout, stderr, env=None, cwd=None, step=None):
        self.k, self.fs = k, fs
        self.eid = k.new_eid()
        self.pid = 1000 + self.eid
        self.cmd = cmd if isinstance(cmd, str) else " ".join(shlex.quote(str(c)) for c in cmd)
        self.env = dict(env or {})
        self.cwd = cwd or fs.cwd
        self.returncode = None
        self.waiters = []
        self.stdout, self.stderr = stdout, stderr
        self.step = step
        self.current_out = None
        self.fault_fired = None
        self.write_failed = False
        try:
            self.ast = parse(self.cmd)
            self.outs = outputs(self.ast, self)
        except Unsupported:
            raise
        self.plan = k.cmd_plan(self) if getattr(k, "cmd_plan", None) else {}
        self.gen = self._main()
        self.node_written = None
        k.procs.append(self)
        k.seq += 1
        self.since = k.seq
        k.count("commands")
        k.log("cmd_start", pid=self.pid, cmd=self.cmd, outs=self.outs, step=step, tool=self.kind())
        for o in self.outs:
            d = posixpath.dirname(o)
            if not fs._exists(d):
                k.log("cmd_no_dir", pid=self.pid, out=o, dir=d)

    def kind(self):
        for pl in self.ast:
            for c in pl[1]:
                if c["argv"]:
                    return posixpath.basename(c["argv"][0])
        return ""

    def path(self, p):
        return p if p.startswith("/") else posixpath.join(self.cwd, p)

    # ---- scheduling
    def advance(self):
        if self.done:
            return
        k = self.k
        try:
            what = next(self.gen)
        except StopIteration as e:
            self._finish(e.value if e.value is not None else 0)
            return
        except Died as e:
            self.kill(e.sig, fault=True)
            return
        if what is None:
            return
        if what[0] == "sleep":
            self.runnable = False
            k.add_timer(what[1], lambda: k.wake(self))
        elif what[0] == "block":
            self.runnable = False

    def _finish(self, rc):
        self.done = True
        self.runnable = False
        self.returncode = rc
        if self in self.k.procs:
            self.k.procs.remove(self)
        for s in {id(s): s for s in (self.stdout, self.stderr)}.values():
            if s.kind == "pipe":
                s.pipe.eof = True
                s.pipe.wake_readers()
        so = bytes(self.stdout.pipe.total) if self.stdout.kind == "pipe" else b""
        se = bytes(self.stderr.pipe.total) if self.stderr.kind == "pipe" and self.stderr is not self.stdout else b""
        self.k.log("cmd_end", pid=self.pid, rc=rc, outs=self.outs, step=self.step, cmd=self.cmd, fault=self.fault_fired, out=so, err=se)
        for w in self.waiters:
            self.k.wake(w)

    def kill(self, sig=15, fault=False):
        if self.done:
            return
        self.gen.close()
        torn = self.current_out
        if torn is not None:
            self.k.log("torn", path=torn, pid=self.pid)
        if fault:
            self.k.count("fault.cmd.killed")
        self._finish(-sig)

    # ---- output
    def emit(self, sink, data):
        if sink.kind == "null" or not data:
            return
        if sink.kind == "inherit":
            self.k.proc_output(data)
            return
        if sink.kind == "buf":
            sink.buf += data
            return
        if sink.kind == "file":
            if self.fs_fault("write", sink.real):
                self.write_failed = True
            else:
                n = self.fs.write_node(sink.node, sink.pos, data)
                sink.pos += n
            return
        p = sink.pipe
        p.writer = self
        view = memoryview(data)
        while view:
            if p.read_closed:
                raise Died(13)
            room = p.cap - len(p.buf)
            if room <= 0:
                self.k.count("pipe_full")
                yield ("block",)
                continue
            p.buf += view[:room]
            p.total += view[:room]
            view = view[room:]
            p.wake_readers()
            yield

    def fs_fault(self, op, path):
        k = self.k
        if k.fault is None:
            return None
        e = k.fault("cmd_" + op, path)
        if e:
            k.count("fault.fs.cmd_%s" % op)
        return e

    # ---- interpretation
    def _main(self):
        yield
        dur = self.plan.get("dur", ())
        if dur:
            yield ("sleep", int(dur[0] * 1e9))
        f = self.plan.get("fail")
        if f and f["stage"] == "before":
            self.fault_fired = f
            self.k.count("fault.cmd.before")
            yield from self.noise(self.stdout, self.stderr)
            return self.fail_now(f)
        rc = yield from self.run_list(self.ast, self.stdout, self.stderr)
        if len(dur) > 2:
            yield ("sleep", int(dur[2] * 1e9))
        if f and f["stage"] == "after" and rc == 0:
            self.fault_fired = f
            self.k.count("fault.cmd.after")
            return self.fail_now(f)
        return rc

    def fail_now(self, f):
        if f.get("sig"):
            raise Died(f["sig"])
        return f.get("rc", 1)

    def noise(self, out, er):
        """The chatter of a tool."""
        o, e = self.plan.get("out") or b"", self.plan.get("err") or b""
        if self.plan.get("turns"):
            cut = len(o) // 2
            yield from self.emit(out, o[:cut])
            yield from self.emit(er, e)
            yield from self.emit(out, o[cut:])
            return
        yield from self.emit(out, o)
        yield from self.emit(er, e)

    def run_list(self, ast, out, er):
        rc = 0
        noisy = False
        for conn, cmds in ast:
            if conn == "&&" and rc != 0:
                continue
            if conn == "||" and rc == 0:
                continue
            if not noisy:
                noisy = True
                yield from self.noise(out, er)
            stdin = b""
            for i, c in enumerate(cmds):
                last = i == len(cmds) - 1
                if last:
                    rc = yield from self.run_simple(c, stdin, out, er)
                else:
                    buf = bytearray()
                    rc = yield from self.run_simple(c, stdin, Sink("buf", buf=buf), er)
                    stdin = bytes(buf)
        return rc

    def run_simple(self, c, stdin, out, er):
        if "sub" in c:
            return (yield from self.run_list(c["sub"], out, er))
        fs = self.fs
        opened = None
        for op, target in c["redir"]:
            if op == "<":
                try:
                    stdin = fs._read(self.path(target))
                except OSError as e:
                    yield from self.emit(er, ("sh: %s: %s\n" % (target, e.strerror)).encode())
                    return 2
            elif op == "2>&1":
                er = out
            elif op == ">&2":
                out = er
            else:
                p = self.path(target)
                if target == "/dev/null":
                    s = Sink("null")
                else:
                    flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if ">>" in op else os.O_TRUNC)
                    try:
                        nd, real = fs.open_node(p, flags, actor=("cmd", self.pid))
                    except OSError as e:
                        yield from self.emit(er, ("sh: %s: %s\n" % (target, e.strerror)).encode())
                        return 2
                    s = Sink("file", node=nd, real=real, pos=len(nd.data) if ">>" in op else 0)
                    self.current_out = real
                    opened = real
                    self.k.mark("empty")
                    yield
                    f = self.plan.get("fail")
                    if f and f["stage"] == "trunc":
                        self.fault_fired = f
                        self.k.count("fault.cmd.trunc")
                        self.current_out = real
                        return self.fail_now(f)
                if op.startswith("2"):
                    er = s
                else:
                    out = s
        argv = c["argv"]
        if not argv:
            return 0
        tool = TOOLS.get(tool_name(argv[0]))
        if tool is None:
            m = self.k.cfg.get("tools", {})
            tool = m.get(argv[0])
        if tool is None:
            yield from self.emit(er, ("sh: 1: %s: not found\n" % argv[0]).encode())
            self.k.log("unknown_command", cmd=self.cmd)
            if is_tool(argv[0]):        # there is such a program, the simulator just does not play it
                raise_unsupported(self.k, "command %s" % argv[0])
            return 127
        yield
        self.write_failed = False
        rc = yield from tool(self, argv, stdin, out, er)
        if self.write_failed:           # what every tool does whose stdout cannot be written
            self.fault_fired = {"stage": "eio"}
            rc = rc or 1
        if opened is not None and self.current_out == opened:
            self.current_out = None
        return rc

    def write_out(self, path, data, append=False):
        """Write a whole output file in steps, with the planned failure."""
        fs = self.fs
        f = self.plan.get("fail")
        p = self.path(path)
        flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if append else os.O_TRUNC)
        nd, real = fs.open_node(p, flags, actor=("cmd", self.pid))
        self.current_out = real
        yield
        if f and f["stage"] == "trunc":
            self.fault_fired = f
            self.k.count("fault.cmd.trunc")
            return self.fail_now(f)
        if self.plan.get("eio") or self.fs_fault("write", real):
            self.fault_fired = {"stage": "eio"}
            return 1
        half = len(data) // 2
        pos = len(nd.data)
        fs.write_node(nd, pos, data[:half])
        self.k.mark("mid")
        dur = self.plan.get("dur", ())
        if len(dur) > 1 and dur[1]:
            yield ("sleep", int(dur[1] * 1e9))
        yield
        if f and f["stage"] == "partial":
            self.fault_fired = f
            self.k.count("fault.cmd.partial")
            return self.fail_now(f)
        fs.write_node(nd, pos + half, data[half:])
        self.current_out = None
        yield
        return 0


class Died(Exception):
    def __init__(self, sig):
        self.sig = sig


_tools = {}
_real_stat = os.stat               # the real one: this module is loaded before the patches


def is_tool(name):
    """Whether a real machine would have such a program."""
    if name not in _tools:
        def there(p):
            try:
                m = _real_stat(p)
            except (OSError, ValueError):
                return False
            return stat.S_ISREG(m.st_mode) and bool(m.st_mode & 0o111)
        if "/" in name:
            _tools[name] = name.startswith(("/bin/", "/usr/bin/")) and there(name)
        else:
            _tools[name] = any(there(d + "/" + name) for d in ("/usr/local/bin", "/usr/bin", "/bin"))
    return _tools[name]


def raise_unsupported(k, what):
    k.unsupported = getattr(k, "unsupported", None) or what


# --------------------------------------------------------------------------------------------------------------------------
def parse(cmd):
    """[(connector, [simple commands of a pipeline])]"""
    cmd = cmd.replace("2>&1", " \x01ERR2OUT ").replace(">&2", " \x01OUT2ERR ").replace("\n", " ; ")
    lex = shlex.shlex(cmd, posix=True, punctuation_chars=PUNCT)
    lex.whitespace_split = True
    lex.commenters = ""
    try:
        toks = list(lex)
    except ValueError as e:
        raise Unsupported("cannot parse command %r: %s" % (cmd, e))
    pos = [0]

    def p_list(close):
        res = []
        conn = ";"
        pipe = []
        cur = None

        def new():
            return {"argv": [], "redir": []}
        cur = new()

        def endcmd():
            nonlocal cur
            if cur["argv"] or cur["redir"] or "sub" in cur:
                pipe.append(cur)
            cur = new()

        def endpipe():
            nonlocal pipe
            endcmd()
            if pipe:
                res.append((conn, pipe))
            pipe = []
        while pos[0] < len(toks):
            t = toks[pos[0]]
            pos[0] += 1
            if t == ")" and close:
                endpipe()
                return res
            if t == "(":
                sub = p_list(True)
                cur["sub"] = sub
            elif t in (";", "&&", "||"):
                endpipe()
                conn = t
            elif t == "|":
                endcmd()
            elif t in (">", ">>", "<"):
                if pos[0] >= len(toks):
                    raise Unsupported("redirection without target: %r" % cmd)
                op = t
                if cur["argv"] and cur["argv"][-1] == "2" and t != "<":
                    cur["argv"].pop()
                    op = "2" + t
                cur["redir"].append((op, toks[pos[0]]))
                pos[0] += 1
            elif t == "\x01ERR2OUT":
                cur["redir"].append(("2>&1", None))
            elif t == "\x01OUT2ERR":
                cur["redir"].append((">&2", None))
            elif t and all(c in PUNCT for c in t):
                raise Unsupported("shell operator %s in %r" % (t, cmd))
            else:
                cur["argv"].append(t)
        endpipe()
        return res
    return p_list(False)


VALUE_OPTS = {"-o", "-I", "-D", "-L", "-l", "-T", "-x", "-include", "-MF", "-MT", "-std", "-O"}


def cc_args(argv):
    """inputs, output, flags, include dirs, mode"""
    ins, out, flags, incs, mode = [], None, [], [], "link"
    i = 1
    while i < len(argv):
        a = argv[i]
        if a in ("-o", "-MF"):
            i += 1
            out = argv[i] if i < len(argv) else None
        elif a in ("-MT", "-MQ"):
            i += 1
        elif a == "-c":
            mode = "obj"
        elif a in ("-MM", "-M"):
            mode = "dep"
        elif a == "--shared" or a == "-shared":
            flags.append("--shared")
        elif a == "-I":
            i += 1
            incs.append(argv[i])
        elif a.startswith("-I"):
            incs.append(a[2:])
        elif a in ("-D", "-T", "-L", "-l"):
            flags.append(a + " " + argv[i + 1])
            i += 1
        elif a.startswith("-"):
            flags.append(a)
        else:
            ins.append(a)
        i += 1
    return ins, out, flags, incs, mode


def outputs(ast, proc):
    """Absolute paths a command line is going to write (what the step is for)."""
    outs = []

    def add(p):
        if p and p != "/dev/null":
            p = posixpath.normpath(proc.path(p))
            if p not in outs:
                outs.append(p)

    def simple(c):
        if "sub" in c:
            for _, cmds in c["sub"]:
                for d in cmds:
                    simple(d)
            return
        for op, t in c["redir"]:
            if op in (">", ">>"):
                add(t)
        a = c["argv"]
        if not a:
            return
        n = tool_name(a[0])
        pos = [x for x in a[1:] if not x.startswith("-")]
        if n in ("cp", "mv", "install", "ln"):
            if pos:
                add(pos[-1])
        elif n in ("touch", "tee"):
            for x in pos:
                add(x)
        elif n == "simgen":
            if pos:
                add(pos[0])
        elif n in CC_NAMES or n == "ld":
            add(cc_args(a)[1])
        elif n == "ar":
            if len(pos) > 1:
                add(pos[1])
            elif pos:
                add(pos[0])
        elif n == "objcopy":
            if len(pos) > 1:
                add(pos[-1])
        elif n == "dx":
            for i, x in enumerate(a):
                if x == "--output" and i + 1 < len(a):
                    add(a[i + 1])
                elif x.startswith("--output="):
                    add(x[9:])
    for _, cmds in ast:
        for c in cmds:
            simple(c)
    return outs


# --------------------------------------------------------------------------------------------------------------------------
def _err(p, er, text):
    yield from p.emit(er, text.encode("utf-8", "replace"))


def t_cp(p, argv, stdin, out, er):
    opts = [a for a in argv[1:] if a.startswith("-")]
    pos = [a for a in argv[1:] if not a.startswith("-")]
    if len(pos) < 2:
        yield from _err(p, er, "cp: missing operand\n")
        return 1
    dst = pos[-1]
    fs = p.fs
    rc = 0
    for src in pos[:-1]:
        d = p.path(dst)
        try:
            nd = fs._find(p.path(src))
        except OSError as e:
            yield from _err(p, er, "cp: cannot stat '%s': %s\n" % (src, e.strerror))
            rc = 1
            continue
        if nd.kind == "d":
            yield from _err(p, er, "cp: -r not specified; omitting directory '%s'\n" % src)
            rc = 1
            continue
        try:
            if fs._exists(d) and fs._find(d).kind == "d":
                d = posixpath.join(d, posixpath.basename(src))
            if p.fs_fault("read", p.path(src)):
                yield from _err(p, er, "cp: error reading '%s': Input/output error\n" % src)
                return 1
            yield
            data = bytes(nd.data)
            mt = nd.mtime
            r = yield from p.write_out(d, data)
            if r:
                if r < 0:
                    return r
                yield from _err(p, er, "cp: error writing '%s'\n" % dst)
                return r
            if any(o.startswith("-") and not o.startswith("--") and ("p" in o or "a" in o) for o in opts) or "--preserve" in opts:
                fs._find(d).mtime = mt
        except OSError as e:
            yield from _err(p, er, "cp: cannot create regular file '%s': %s\n" % (dst, e.strerror))
            rc = 1
    return rc


def t_rm(p, argv, stdin, out, er):
    opts = "".join(a[1:] for a in argv[1:] if a.startswith("-") and not a.startswith("--"))
    rc = 0
    for a in argv[1:]:
        if a.startswith("-"):
            continue
        path = p.path(a)
        try:
            if p.fs_fault("unlink", path):
                yield from _err(p, er, "rm: cannot remove '%s': Operation not permitted\n" % a)
                rc = 1
                continue
            nd = p.fs._walk(path, False)[2]
            if nd is not None and nd.kind == "d":
                if "r" not in opts and "R" not in opts:
                    yield from _err(p, er, "rm: cannot remove '%s': Is a directory\n" % a)
                    rc = 1
                    continue
                real = p.fs._walk(path, False)[3]
                files, dirs = p.fs._tree(real)
                p.fs._rmtree(path)
                for f in list(files) + sorted(dirs) + [real]:
                    p.fs.note("unlink", f, ("cmd", p.pid))
            else:
                p.fs.unlink(path, ("cmd", p.pid))
        except OSError as e:
            if not ("f" in opts and e.errno == 2):
                yield from _err(p, er, "rm: cannot remove '%s': %s\n" % (a, e.strerror))
                rc = 1
        yield
    return rc


def t_mkdir(p, argv, stdin, out, er):
    par = any(a in ("-p", "--parents") for a in argv[1:])
    rc = 0
    for a in argv[1:]:
        if a.startswith("-"):
            continue
        path = posixpath.normpath(p.path(a))
        try:
            if par:
                cur = ""
                for part in path.split("/")[1:]:
                    cur += "/" + part
                    if not p.fs._exists(cur):
                        p.fs.mkdir(cur, ("cmd", p.pid))
                        yield
            else:
                p.fs.mkdir(path, ("cmd", p.pid))
        except OSError as e:
            yield from _err(p, er, "mkdir: cannot create directory '%s': %s\n" % (a, e.strerror))
            rc = 1
        yield
    return rc


def t_rmdir(p, argv, stdin, out, er):
    for a in argv[1:]:
        try:
            p.fs.rmdir(p.path(a), ("cmd", p.pid))
        except OSError as e:
            yield from _err(p, er, "rmdir: %s\n" % e.strerror)
            return 1
        yield
    return 0


def t_touch(p, argv, stdin, out, er):
    for a in argv[1:]:
        if a.startswith("-"):
            continue
        try:
            nd, real = p.fs.open_node(p.path(a), os.O_WRONLY | os.O_CREAT, actor=("cmd", p.pid))
            nd.mtime = p.fs.stamp()
        except OSError as e:
            yield from _err(p, er, "touch: %s\n" % e.strerror)
            return 1
        yield
    return 0


def t_mv(p, argv, stdin, out, er):
    pos = [a for a in argv[1:] if not a.startswith("-")]
    dst = p.path(pos[-1])
    for src in pos[:-1]:
        try:
            d = dst
            if p.fs._exists(dst) and p.fs._find(dst).kind == "d":
                d = posixpath.join(dst, posixpath.basename(src))
            p.fs.rename(p.path(src), d, ("cmd", p.pid))
        except OSError as e:
            yield from _err(p, er, "mv: %s\n" % e.strerror)
            return 1
        yield
    return 0


def t_ln(p, argv, stdin, out, er):
    pos = [a for a in argv[1:] if not a.startswith("-")]
    sym = any("s" in a for a in argv[1:] if a.startswith("-"))
    try:
        if any("f" in a for a in argv[1:] if a.startswith("-")) and p.fs._walk(p.path(pos[1]), False)[2] is not None:
            p.fs.unlink(p.path(pos[1]), ("cmd", p.pid))
        if sym:
            p.fs.symlink(pos[0], p.path(pos[1]), ("cmd", p.pid))
        else:
            p.fs.link(p.path(pos[0]), p.path(pos[1]), ("cmd", p.pid))
    except OSError as e:
        yield from _err(p, er, "ln: %s\n" % e.strerror)
        return 1
    yield
    return 0


def t_echo(p, argv, stdin, out, er):
    args = argv[1:]
    end = b"\n"
    if args and args[0] == "-n":
        args, end = args[1:], b""
    yield from p.emit(out, " ".join(args).encode() + end)
    return 0


def t_cat(p, argv, stdin, out, er):
    rc = 0
    pos = [a for a in argv[1:] if not a.startswith("-")]
    if not pos:
        yield from p.emit(out, stdin)
    for a in pos:
        try:
            d = p.fs._read(p.path(a))
        except OSError as e:
            yield from _err(p, er, "cat: %s: %s\n" % (a, e.strerror))
            rc = 1
            continue
        yield
        yield from p.emit(out, d)
    return rc


def t_tee(p, argv, stdin, out, er):
    for a in argv[1:]:
        try:
            r = yield from p.write_out(a, stdin)
            if r:
                return r
        except OSError as e:
            yield from _err(p, er, "tee: %s\n" % e.strerror)
            return 1
    yield from p.emit(out, stdin)
    return 0


def t_true(p, argv, stdin, out, er):
    yield
    return 0


def t_false(p, argv, stdin, out, er):
    yield
    return 1


def t_exit(p, argv, stdin, out, er):
    yield
    return int(argv[1]) if len(argv) > 1 else 0


def t_test(p, argv, stdin, out, er):
    yield
    a = argv[1:]
    if a and a[-1] == "]":
        a = a[:-1]
    neg = False
    if a and a[0] == "!":
        neg, a = True, a[1:]
    r = True
    if len(a) == 2 and a[0] in ("-e", "-f", "-d", "-s"):
        r = p.fs._exists(p.path(a[1]))
        if r and a[0] in ("-f", "-d"):
            r = p.fs._find(p.path(a[1])).kind == a[0][1]
    return 0 if r != neg else 1


def gen_content(tag, contents):
    """What the simulated generator computes: depends on the tag and on every input's content."""
    return ("GEN %s %s\n" % (tag, sha(*contents))).encode()


def t_simgen(p, argv, stdin, out, er):
    """simgen OUT TAG IN..."""
    tgt, tag, ins = argv[1], argv[2], argv[3:]
    cont = []
    for i in ins:
        if p.fs_fault("read", p.path(i)):
            yield from _err(p, er, "simgen: %s: Input/output error\n" % i)
            return 1
        try:
            cont.append(p.fs._read(p.path(i)))
        except OSError as e:
            yield from _err(p, er, "simgen: %s: %s\n" % (i, e.strerror))
            return 1
        yield
    try:
        r = yield from p.write_out(tgt, gen_content(tag, cont))
    except OSError as e:
        yield from _err(p, er, "simgen: %s: %s\n" % (tgt, e.strerror))
        return 1
    return r


INC = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*"([^"\n]+)"', re.M)


def strip_conditionals(data, defs):
    """The text without the lines #ifdef and #ifndef exclude."""
    if b"#if" not in data:
        return data
    out, stack = [], []
    for line in data.split(b"\n"):
        w = line.strip().split()
        if w and w[0] in (b"#ifdef", b"#ifndef") and len(w) > 1:
            stack.append((w[1].decode("utf-8", "replace") in defs) == (w[0] == b"#ifdef"))
        elif w and w[0] == b"#else" and stack:
            stack[-1] = not stack[-1]
        elif w and w[0] == b"#endif" and stack:
            stack.pop()
        elif all(stack):
            out.append(line)
    return b"\n".join(out)


def preprocess(read, exists, cwd, src, incs, defs=()):
    """(list of (path as the compiler spells it, content) in first-inclusion order) or raises MissingHeader."""
    seen = {}
    order = []

    def absol(p):
        return posixpath.normpath(p if p.startswith("/") else posixpath.join(cwd, p))

    def visit(path):
        a = absol(path)
        if a in seen:
            return
        data = read(a)
        seen[a] = True
        order.append((path, data))
        for m in INC.finditer(strip_conditionals(data, defs)):
            h = m.group(1).decode("utf-8", "surrogateescape")
            d = posixpath.dirname(path)
            for base in [d] + list(incs):
                c = posixpath.join(base, h) if base not in ("",) else h
                if exists(absol(c)):
                    visit(c)
                    break
            else:
                raise MissingHeader(path, h)
    if not exists(absol(src)):
        raise MissingHeader(None, src)
    visit(src)
    return order


class MissingHeader(Exception):
    pass


def obj_content(lang, flags, order):
    return ("OBJ %s %s %s\n" % (lang, sha(*sorted(flags)), sha(*[c for _, c in order]))).encode()


def link_content(kind, contents):
    return ("%s %s\n" % (kind, sha(*contents))).encode()


def t_cc(p, argv, stdin, out, er):
    ins, o, flags, incs, mode = cc_args(argv)
    fs = p.fs
    name = posixpath.basename(argv[0])

    def rd(a):
        return fs._read(a)
    if not ins:
        yield from _err(p, er, "%s: fatal error: no input files\n" % name)
        return 1
    if mode in ("obj", "dep"):
        yield
        try:
            order = preprocess(rd, lambda a: fs._exists(a) and fs._find(a).kind == "f", p.cwd, ins[0], incs,
                               {f[2:].strip().split("=")[0] for f in flags if f.startswith("-D")})
        except (MissingHeader, OSError) as e:
            yield from _err(p, er, "%s: fatal error: %s\n" % (name, e))
            return 1
        yield
        if mode == "dep":
            base = posixpath.basename(ins[0])
            stem = base.rsplit(".", 1)[0]
            words = [path.replace("\\", "\\\\").replace(" ", "\\ ").replace("#", "\\#").replace("$", "$$") for path, _ in order]
            lines, cur = [], stem + ".o:"
            for w in words:
                if len(cur) + len(w) > 60 and cur.strip():
                    lines.append(cur + " \\\n")
                    cur = ""
                cur += " " + w
            text = "".join(lines) + cur + "\n"
            data = text.encode()
            if o is not None:
                return (yield from p.write_out(o, data))
            f = p.plan.get("fail")
            half = len(data) // 2
            yield from p.emit(out, data[:half])
            dur = p.plan.get("dur", ())
            if len(dur) > 1 and dur[1]:
                yield ("sleep", int(dur[1] * 1e9))
            yield
            if f and f["stage"] == "partial":
                p.fault_fired = f
                p.k.count("fault.cmd.partial")
                return p.fail_now(f)
            yield from p.emit(out, data[half:])
            return 0
        lang = "c" if tool_name(name) in ("cc", "gcc", "clang") else "c++"
        data = obj_content(lang, flags, order)
    else:
        cont = []
        for i in ins:
            try:
                cont.append(fs._read(p.path(i)))
            except OSError as e:
                yield from _err(p, er, "%s: error: %s: %s\n" % (name, i, e.strerror))
                return 1
            yield
        data = link_content("SHARED" if "--shared" in flags else "EXE", cont)
    if o is None:
        o = "a.out"
    try:
        r = yield from p.write_out(o, data)
    except OSError as e:
        yield from _err(p, er, "%s: error: %s: %s\n" % (name, o, e.strerror))
        return 1
    if r and p.fs._exists(p.path(o)) and not p.plan.get("keep_partial", True):
        p.fs.unlink(p.path(o), ("cmd", p.pid))
    return r


def t_ar(p, argv, stdin, out, er):
    pos = [a for a in argv[1:] if not a.startswith("-")]
    if argv[1].startswith("-"):
        tgt, ins = pos[0], pos[1:]
    else:
        tgt, ins = pos[1], pos[2:]
    cont = []
    for i in ins:
        try:
            cont.append(p.fs._read(p.path(i)))
        except OSError as e:
            yield from _err(p, er, "ar: %s: %s\n" % (i, e.strerror))
            return 1
        yield
    try:
        return (yield from p.write_out(tgt, link_content("AR", cont)))
    except OSError as e:
        yield from _err(p, er, "ar: %s: %s\n" % (tgt, e.strerror))
        return 1


def objcopy_args(argv):
    """(files, options with a value)"""
    pos, opts, i = [], [], 1
    while i < len(argv):
        a = argv[i]
        if a in ("-O", "-j", "-I"):
            opts.append(" ".join(argv[i:i + 2]))
            i += 2
            continue
        if not a.startswith("-"):
            pos.append(a)
        i += 1
    return pos, opts


def t_objcopy(p, argv, stdin, out, er):
    pos = objcopy_args(argv)[0]
    src, tgt = pos[0], pos[-1]
    try:
        d = p.fs._read(p.path(src))
        yield
        return (yield from p.write_out(tgt, link_content("OBJCOPY", [d])))
    except OSError as e:
        yield from _err(p, er, "objcopy: %s: %s\n" % (tgt, e.strerror))
        return 1


def tool_name(a):
    """The tool behind a name with the prefix of a cross toolchain."""
    n = posixpath.basename(a)
    for t in ("g++", "gcc", "ar", "objcopy"):
        if n not in TOOLS and n.endswith("-" + t):
            return t
    return n


def t_qt(p, argv, stdin, out, er):
    pos = [a for a in argv[1:] if not a.startswith("-")]
    try:
        d = p.fs._read(p.path(pos[0]))
    except (OSError, IndexError) as e:
        yield from _err(p, er, "%s: cannot open %s\n" % (argv[0], pos))
        return 1
    yield
    yield from p.emit(out, qt_content(posixpath.basename(argv[0]), posixpath.normpath(p.path(pos[0])), d))
    return 0


def qt_content(tool, path, data):
    import hashlib
    head = "// %s %s\n" % (tool, hashlib.sha256(data).hexdigest()[:16])
    if tool == "moc":
        head += '#include "%s"\n' % path
    return head.encode("utf-8", "surrogateescape")


CC_NAMES = {"c++", "cc", "g++", "gcc", "clang", "clang++"}
TOOLS = {"cp": t_cp, "rm": t_rm, "mkdir": t_mkdir, "rmdir": t_rmdir, "touch": t_touch, "mv": t_mv, "ln": t_ln, "echo": t_echo,
         "cat": t_cat, "tee": t_tee, "true": t_true, ":": t_true, "false": t_false, "exit": t_exit, "test": t_test, "[": t_test, "set": t_true,
         "simgen": t_simgen, "ar": t_ar, "moc": t_qt, "uic": t_qt, "objcopy": t_objcopy}
for _n in CC_NAMES:
    TOOLS[_n] = t_cc


# --------------------------------------------------------------------------------------------------------------------------
class SimPopen:
    """subprocess.Popen on simulated processes."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        k, me = current()
        if k is None:
            raise HarnessError("command outside the simulation: %r" % (args,))
        self.args = args
        k.yield_point("proc")
        if k.fault is not None:
            e = k.fault("spawn", str(args))
            if e:
                k.count("fault.spawn")
                k.log("fs_fault", op="spawn", path=str(args), err=e, actor=("thread", me.step))
                raise OSError(e, os.strerror(e))
        txt = None
        if text or universal_newlines or encoding or errors:
            txt = (encoding or "utf-8", errors or "strict")
        self._text = txt
        cap = k.cfg.get("pipe_cap", 65536)

        def sink(x):
            if x is None:
                return Sink("inherit"), None
            if x == subprocess.PIPE:
                p = Pipe(k, cap)
                return Sink("pipe", pipe=p), PipeReader(p, txt)
            if x == subprocess.DEVNULL:
                return Sink("null"), None
            if hasattr(x, "fileno"):
                try:
                    x = x.fileno()
                except Exception:
                    return Sink("inherit"), None
            if isinstance(x, int) and x in k.fs.fds:
                f = k.fs.fds[x]
                return Sink("file", node=f.node, real=f.real, pos=len(f.node.data)), None
            return Sink("inherit"), None
        so, self.stdout = sink(stdout)
        if stderr == subprocess.STDOUT:
            se, self.stderr = so, None
        else:
            se, self.stderr = sink(stderr)
        self.stdin = None
        if stdin == subprocess.PIPE:
            self.stdin = _Null()
        if not shell and isinstance(args, (str, bytes)):
            args = [args]
        if isinstance(args, bytes):
            args = args.decode()
        if shell and isinstance(args, (list, tuple)):
            args = args[0]
        if not shell and len(args) == 3 and args[1] == "-c" and posixpath.basename(os.fspath(args[0])) in ("sh", "bash", "dash"):
            shell, args = True, args[2]
        self.proc = Proc(k, k.fs, args, shell, so, se, env, os.fspath(cwd) if cwd else None, me.step)
        self.pid = self.proc.pid
        self.returncode = None

    def poll(self):
        k, me = current()
        if k is not None:
            k.yield_point("proc")
        self.returncode = self.proc.returncode
        return self.returncode

    def wait(self, timeout=None):
        k, me = current()
        if k is None:
            return self.returncode
        k.yield_point("proc")
        end = None if timeout is None else k.now_ns + int(timeout * 1e9)
        while self.proc.returncode is None:
            dt = None
            if end is not None:
                dt = end - k.now_ns
                if dt <= 0:
                    raise subprocess.TimeoutExpired(self.args, timeout)
            self.proc.waiters.append(me)
            try:
                k.block("wait", dt)
            finally:
                if me in self.proc.waiters:
                    self.proc.waiters.remove(me)
        self.returncode = self.proc.returncode
        return self.returncode

    def communicate(self, input=None, timeout=None):
        k, me = current()
        k.yield_point("proc")
        readers = [r for r in (self.stdout, self.stderr) if r is not None]
        bufs = self.__dict__.setdefault("_got", {id(r): bytearray() for r in readers})      # what came before a timeout is kept
        end = None if timeout is None else k.now_ns + int(timeout * 1e9)
        while True:
            for r in readers:
                if r.pipe.buf:
                    bufs[id(r)] += r.pipe.take()
            if all(r.pipe.eof and not r.pipe.buf for r in readers):
                break
            if any(r.pipe.buf for r in readers):
                continue
            dt = None
            if end is not None:
                dt = end - k.now_ns
                if dt <= 0:
                    o, e = (bytes(bufs[id(r)]) if r is not None and bufs[id(r)] else None for r in (self.stdout, self.stderr))
                    raise subprocess.TimeoutExpired(self.args, timeout, output=o, stderr=e)
            for r in readers:
                r.pipe.readers.append(me)
            try:
                k.block("pipe", dt)
            finally:
                for r in readers:
                    while me in r.pipe.readers:
                        r.pipe.readers.remove(me)
        self.wait()
        o = self.stdout._conv(bytes(bufs[id(self.stdout)])) if self.stdout is not None else None
        e = self.stderr._conv(bytes(bufs[id(self.stderr)])) if self.stderr is not None else None
        return o, e

    def send_signal(self, sig):
        self.proc.kill(int(sig))

    def kill(self):
        self.proc.kill(9)

    def terminate(self):
        self.proc.kill(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def __class_getitem__(cls, item):
        return cls


class _Null:
    def write(self, b):
        return len(b)

    def flush(self):
        pass

    def close(self):
        pass
