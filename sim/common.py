"""Pieces shared by the scenario families: faults of a process, violations, the common run report."""
import errno
import posixpath
import zlib
import random

from . import kernel
from .kernel import Chooser, HarnessError, SimKilled, WallTimeout
from .proc import Sim


class Violation:
    def __init__(self, prop, what, detail="", key=None):
        self.prop, self.what, self.detail = prop, what, detail
        self.key = key or what

    def __repr__(self):
        return "%s: %s %s" % (self.prop, self.what, self.detail)


class Report:
    """What one simulated run established."""

    def __init__(self):
        self.violations = []
        self.known = []
        self.stats = {}
        self.probes = {}
        self.digest = None
        self.taken = {}
        self.points = 0
        self.sim_ns = 0
        self.skipped = None
        self.nontrivial = False

    def skip(self, why):
        """The run left what the simulator implements: it shows nothing."""
        self.skipped = why
        self.violations.clear()
        self.known.clear()

    def add(self, prop, what, detail="", key=None):
        if self.skipped:
            return
        self.violations.append(Violation(prop, what, detail, key))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


def normal(p):
    return posixpath.normpath(p)


SPELLS = 5


LINK = "/mnt/ln"      # a symbolic link to the working directory


def spell(path, how, cwd="/w"):
    """One of the ways to write an absolute path."""
    if not path.startswith("/"):
        return path
    rel = posixpath.relpath(path, cwd)
    if how == 5 and path.startswith(cwd + "/"):
        return LINK + path[len(cwd):]
    if how == 1:
        return "./" + rel
    if how == 2:
        return path
    if how == 3:
        return "../" + posixpath.basename(cwd) + "/" + rel
    if how == 4:
        return rel.replace("/", "//", 1) if "/" in rel else "././" + rel
    return rel


def noise_bytes(key, stream, spec):
    """Deterministic chatter: [number of lines, width, flavour]."""
    n, width, flavour = spec
    out = bytearray()
    for i in range(n):
        line = ("<%s|%s|%d>" % (key, stream, i)).encode()
        pad = max(0, width - len(line))
        if flavour == 1:
            line += ("\u00e4\u4e16" * pad).encode()[:pad * 3]
        elif flavour == 2:
            line += b"\xff\xfe\x80"[:max(1, min(3, pad))] + b"." * max(0, pad - 3)
        elif flavour == 5:      # nothing to see, but bytes all the same
            line = b"\t\t" + b"".join(b" \t"[c:c + 1] for c in (zlib.crc32(line) >> j & 1 for j in range(24)))
        elif flavour == 6:
            line += b"\r" + b"#" * min(pad, 40) + b"\r"
        elif flavour == 7:
            line = b"\x1b[31m" + line + b"\x00\x0c\x1b[0m" + b"." * pad
        elif flavour == 3:
            line += b"%s{}\\n" + b"-" * pad
        else:
            line += b"." * pad
        out += line
        if not (flavour == 4 and i == n - 1):
            out += b"\n"
    return bytes(out)


def relayed(block, text):
    """How often `block` appears in `text`, undecodable bytes matching any short replacement."""
    n = text.count(block)
    if n:
        return n
    try:
        block.decode("utf-8")
        return n
    except UnicodeDecodeError:
        pass
    # compare with every common way of replacing what cannot be decoded
    for err in ("replace", "backslashreplace", "ignore"):
        alt = block.decode("utf-8", err).encode()
        n = text.count(alt)
        if n:
            return n
    for enc in ("latin-1", "cp1252", "ascii"):
        for err in ("replace", "ignore"):
            try:
                alt = block.decode(enc, err).encode()
            except UnicodeDecodeError:
                continue
            n = text.count(alt)
            if n:
                return n
    return 0


class Faults:
    """The k.fault callback for one process: planned file-system faults and foreign actors."""

    def __init__(self, sim, plans, foreign=None):
        self.sim = sim
        self.plans = [dict(p) for p in plans or []]
        self.foreign = foreign     # [n, where] : create the directory just before the n-th mkdir
        self.fired = []
        self.mkdirs = 0

    def __call__(self, op, path):
        fs = self.sim.fs
        if op == "mkdir" and self.foreign is not None:
            self.mkdirs += 1
            if self.mkdirs in self.foreign:
                p = posixpath.normpath(fs.absolute(path))
                if not fs._exists(p):
                    fs._mkdirs(p)
                    self.sim.k.count("fault.foreign_mkdir")
                    self.sim.k.log("foreign_mkdir", path=p)
        if op == "mkdir" and fs._exists(posixpath.normpath(fs.absolute(path))):
            return None         # the kernel says EEXIST before anything else
        for p in self.plans:
            if p["op"] == op and p["n"] > 0:
                if p.get("path") and p["path"] not in str(path):
                    continue
                p["n"] -= 1
                if p["n"] == 0:
                    self.fired.append(p)
                    return getattr(errno, p["err"])
        return None


def pick_strategy(rng, line=True):
    kind = rng.choice(["sticky", "uniform", "uniform", "pct", "fifo"])
    s = {"kind": kind}
    if kind == "sticky":
        s["p"] = rng.choice([0.05, 0.2, 0.5])
    if kind == "pct":
        s["depth"] = rng.choice([1, 2, 3, 5])
        s["span"] = rng.choice([50, 200, 800])
    if line and rng.random() < 0.35:
        s["line_gap"] = rng.choice([5, 20, 60, 200, 600])
    return s
