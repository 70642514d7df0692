"""Scenario family "scripts": build scripts that execute others and include libraries, with faults of reading, failing scripts and interrupts,
against a model that evaluates the same scripts."""
import copy as _copy
import json
import posixpath

from .common import Faults, Report
from .kernel import SimKilled
from .proc import Sim, event_digest

G = "/var/lib/licant"
U = "/home/user/.licant"
RULE = "a nested script was evaluated"
REAL = ["licant/* (imported from the working tree, unmodified): scripter, libs, util, core", "CPython 3.12 exec, io, os.walk, traceback on top of the seams"]
STUB = ["file system (in-memory, with faults)", "process death and SIGINT", "standard output (recorded)"]
ASSUME = ["scripts use the calls of licant for everything relative to themselves and do not change the working directory"]


class Stop(Exception):
    """The process ends here, with failure unless a script catches it."""


# ---------------------------------------------------------------------------------------------------------------- scripts
def text_of(path, ops):
    """The Python text of a script; every step leaves a line on the standard output."""
    out = ["import licant, os", "print('@B %s')" % path, "print('@D %s' % os.path.realpath(licant.directory() or '.'))"]
    for i, o in enumerate(ops):
        if o[0] == "try":
            out += ["try:", "    " + call_of(o[1]), "except (SystemExit, Exception):", "    print('@C %s %d')" % (path, i)]
        else:
            out.append(call_of(o))
        out.append("print('@A %s %d')" % (path, i))
        out.append("print('@D %s' % os.path.realpath(licant.directory() or '.'))")
    out.append("print('@E %s')" % path)
    return "\n".join(out) + "\n"


def call_of(o):
    k = o[0]
    if k == "exec":
        return "licant.execute(%r)" % o[1]
    if k == "inc":
        return "licant.include(%r%s)" % (o[1], ", path=%r" % o[2] if len(o) > 2 else "")
    if k == "tunnel":
        return "licant.include(%r, local_tunel=(%r, %r))" % (o[1], o[2], o[3])
    if k == "rec":
        return "licant.execute_recursive(%r, %r%s)" % (o[1], o[2], ", hide=%r" % o[3] if o[3] else "")
    if k == "raise":
        return {"error": "raise ValueError('wrong')", "exit": "raise SystemExit(3)", "assert": "assert False", "syntax": "exec('x = = 1')", "name": "no_such_name"}[o[1]]
    raise AssertionError(o)


class Model:
    """Evaluates the scripts of a scenario, following the recorded order where the order is free."""

    def __init__(self, fs_read, isdir, listing, libs, log, links):
        self.read, self.isdir, self.listing = fs_read, isdir, listing
        self.libs, self.log, self.links = libs, log, links
        self.pos = 0
        self.included = {}
        self.bad = None
        self.evaluations = 0
        self.depth = 0

    def expect(self, line):
        if self.bad is None:
            got = self.log[self.pos] if self.pos < len(self.log) else None
            if got != line:
                self.bad = "expected %r, found %r" % (line, got)
            self.pos += 1
        if self.bad is not None:
            raise Diverged(self.bad)

    def script(self, path, top=False):
        """path: canonical."""
        ops = self.read(path)
        if ops is None:
            raise Stop("no script %s" % path)
        self.evaluations += 1
        if self.evaluations > 300:
            raise TooMuch()
        here = posixpath.dirname(path)
        name = path
        self.expect("@B %s" % name)
        self.expect("@D %s" % here)
        for i, o in enumerate(ops):
            if o[0] == "try":
                try:
                    self.call(o[1], here)
                except Stop:
                    self.expect("@C %s %d" % (name, i))
            else:
                self.call(o, here)
            self.expect("@A %s %d" % (name, i))
            self.expect("@D %s" % here)
        self.expect("@E %s" % name)

    def at(self, here, p):
        return self.real(posixpath.normpath(posixpath.join(here, p)))

    def real(self, p):
        for l, t in self.links.items():
            if p == l or p.startswith(l + "/"):
                return t + p[len(l):]
        return p

    def call(self, o, here):
        k = o[0]
        if k == "exec":
            self.script(self.at(here, o[1]))
        elif k == "inc":
            lib = o[1]
            if lib in self.included:
                return
            if len(o) > 2:
                self.included[lib] = o[2]
                self.script(self.at(here, o[2]))
                return
            if lib not in self.libs:
                raise Stop("unregistered")
            self.included[lib] = self.libs[lib]
            self.script(self.real(self.libs[lib]))
        elif k == "tunnel":
            lib = o[1]
            if lib in self.included:
                return
            link = posixpath.normpath(posixpath.join(here, o[2]))
            if link not in self.links:
                if lib not in self.libs:
                    raise Stop("unregistered")
                self.links[link] = posixpath.dirname(self.libs[lib])
            self.included[lib] = o[2]
            self.script(self.at(here, posixpath.join(o[2], o[3])))
        elif k == "rec":
            root = self.at(here, o[1])
            left = [p for p in self.listing(root) if o[2] in posixpath.basename(p) and not (o[3] and o[3] in posixpath.dirname(p)[len(root):])]
            while left:
                got = self.log[self.pos] if self.pos < len(self.log) else None
                p = got[3:] if got and got.startswith("@B ") and got[3:] in left else left[0]
                left.remove(p)
                self.script(p)
        elif k == "raise":
            raise Stop(o[1])


class Diverged(Exception):
    pass


class TooMuch(Exception):
    pass


class Run:
    def __init__(self, scn, chooser):
        self.scn = scn
        self.rep = Report()
        self.sim = Sim(chooser, dict(scn.get("cfg", {})))
        self.k, self.fs = self.sim.k, self.sim.fs
        self.scripts = {}
        self.links = {}

    def process(self, op):
        k, fs, rep = self.k, self.fs, self.rep
        top, cwd = op["top"], op["cwd"]
        argv0 = op["argv0"]
        k.triggers = []
        k.fault = faults = Faults(self.sim, op.get("fsfault"))
        if op.get("interrupt"):
            k.interrupt_at = k.ch.points + op["interrupt"]
        before = {p: fs._read(p) for p in self.scripts if fs._exists(p)}

        def body(licant):
            text = open(argv0).read()
            exec(compile(text, argv0, "exec"), {"__name__": "__main__"})
            print("@DONE")
        res = self.sim.process(body, argv=[argv0], cwd=cwd)
        k.fault = None
        k.drain()
        text = res.text(1)
        k.out = None
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        ev = k.events[res.first:]
        if res.why in ("deadlock", "no-progress"):
            rep.add("C34", "a script never ends", res.why)
            return
        log = [l for l in text.split("\n") if l.startswith("@")]
        done = bool(log) and log[-1] == "@DONE"
        disturbed = bool(faults.fired) or any(e["ev"] in ("interrupt", "fs_fault") for e in ev)
        lines = log[:-1] if done else log
        m = Model(lambda p: self.scripts.get(p), None, lambda r: sorted(p for p in self.scripts if p.startswith(r + "/")), op["libs"], lines, dict(self.links))
        end = "done"
        try:
            m.script(top, True)
            if m.pos < len(lines):
                rep.add("C34", "more was evaluated than asked for", repr(lines[m.pos]))
        except Stop as e:
            end = str(e) or "stopped"
            if m.pos < len(lines):
                rep.add("C34", "scripts went on after one of them failed", "%s: %r" % (end, lines[m.pos]))
        except Diverged as e:
            end = None
            if not (disturbed and m.pos > len(lines)):
                # what a fault may do is end the process early (or, when a script catches that, continue behind it)
                caught = disturbed and any(l.startswith("@C") for l in lines)
                if not caught:
                    rep.add("C34", "scripts were not evaluated as asked for", str(e))
        except TooMuch:
            rep.skip("too many evaluations")
            return
        rep.probe("evaluations", m.evaluations)
        rep.probe("end_" + ("disturbed" if disturbed else "diverged" if end is None else end.split(" ")[0]))
        if not disturbed and end is not None and not any(v.prop == "C34" for v in rep.violations):
            if end == "done" and (res.code != 0 or not done):
                rep.add("C34", "correct scripts fail", "%s %s" % (res.exc, text[-200:]))
            if end != "done" and res.code == 0:
                rep.add("C34", "a failed script leaves exit status 0", end)
        if any(e["ev"] == "fs_fault" for e in ev) and not done and res.code == 0:
            rep.add("C34", "exit status 0 although a script could not be read", repr(log[-1:]))
        if {p: fs._read(p) for p in self.scripts if fs._exists(p)} != before:
            rep.add("C34", "evaluating scripts changed one", "")
        self.links = {p: t for p, t in m.links.items() if fs._exists(p)}


def run(scn, chooser):
    r = Run(scn, chooser)
    k, fs, rep = r.k, r.fs, r.rep
    try:
        for d in ("/var/lib", "/w/a", "/home/user"):
            fs._mkdirs(d)
        for p, ops in sorted(scn["scripts"].items()):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, text_of(p, ops))
            r.scripts[p] = ops
        for op in scn["history"]:
            k.now_ns += 5_000_000_000
            if op["op"] == "proc":
                for p, reg in ((G, op["g"]), (U, op["u"])):
                    fs._write(p, json.dumps(reg))
                    for q in sorted(reg.values()):
                        fs._mkdirs(posixpath.dirname(q))        # a link to nothing is no tunnel
                op = dict(op, libs=dict(op["g"], **op["u"]))
                r.process(op)
            elif op["op"] == "rewrite":
                r.scripts[op["p"]] = op["ops"]
                fs._write(op["p"], text_of(op["p"], op["ops"]))
            if k.unsupported:
                rep.skip(k.unsupported)
                break
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = rep.probes.get("evaluations", 0) > 1
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
DIRS = ["/w", "/w/a", "/w/a/b", "/w/c", "/ext/l", "/ext/m/n", "/w/c/b/k", "/ext/l/b.d", "/ext/l/b.d/e"]


def gen(rng, prof):
    n = rng.choice([2, 3, 4, 5, 7, 9])
    cwd = rng.choice(["/w", "/w", "/w", "/w/a", "/home/user"])
    dirs = rng.sample(DIRS, rng.choice([2, 3, 4, 6]))
    paths = []
    top = posixpath.join(rng.choice([cwd, cwd, "/w", "/w/a"]), "make.py")
    paths.append(top)
    for i in range(1, n):
        p = "%s/%s%d%s" % (rng.choice(dirs), rng.choice(["s", "lib", "x"]), i, rng.choice([".g.py", ".g.py", ".py"]))
        paths.append(p)
    libnames = ["l%d" % i for i in range(rng.choice([1, 2, 3]))]
    g, u = {}, {}
    for l in libnames:
        for reg in (g, u):
            if rng.random() < 0.6 and n > 1:
                reg[l] = rng.choice(paths[1:])
    scripts = {}

    def rel(here, p):
        return rng.choice([posixpath.relpath(p, here)] * 3 + [p, "./" + posixpath.relpath(p, here)])

    def one(i, here):
        later = paths[i + 1:]
        r = rng.random()
        if later and r < 0.45:
            return ["exec", rel(here, rng.choice(later))]
        if r < 0.7:
            return ["inc", rng.choice(libnames + (["unknown"] if rng.random() < 0.05 else []))]
        if later and r < 0.8:
            return ["inc", rng.choice(libnames + ["p1", "p2"]), rel(here, rng.choice(later))]
        if r < 0.9:
            # only directories all of whose scripts come later
            for _ in range(4):
                d = rng.choice(dirs)
                sub = [q for q in paths if q.startswith(d + "/")]
                if sub and all(q in later for q in sub):
                    hide = None
                    if i == 0 and rng.random() < 0.5:
                        hide = "b"
                        if hide in posixpath.relpath(d, here) or hide in here or hide in cwd:
                            hide = None
                    return ["rec", posixpath.relpath(d, here), rng.choice([".g.py", ".py", "lib"]), hide]
        if r < 0.95 and i == 0 and (g or u):
            lib = rng.choice(sorted(dict(g, **u)))
            p = dict(g, **u)[lib]
            return ["tunnel", lib, rng.choice(["tun", "deep/er/tun", "src/" + lib]) + str(rng.randrange(2)), posixpath.basename(p)]
        return ["inc", rng.choice(libnames)]

    def body(i):
        p = paths[i]
        here = posixpath.dirname(p)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4]) if i == 0 else rng.choice([0, 0, 1, 1, 2, 3])):
            o = one(i, here)
            if rng.random() < prof.get("catch", 0.12):
                o = ["try", o]
            ops.append(o)
        if i and rng.random() < prof.get("fail", 0.1):
            ops.insert(rng.randrange(len(ops) + 1), ["raise", rng.choice(["error", "exit", "assert", "syntax", "name"])])
        return ops
    for i, p in enumerate(paths):
        if i and rng.random() < 0.03:
            continue            # a script that is not there
        scripts[p] = body(i)
    hist = []
    for i in range(rng.choice([1, 1, 2, 3])):
        op = {"op": "proc", "top": top, "cwd": cwd, "g": g, "u": u}
        r = posixpath.relpath(top, cwd)
        op["argv0"] = rng.choice([r, r, top, "./" + r])
        if rng.random() < prof.get("fsfault", 0):
            op["fsfault"] = [{"op": rng.choice(["read", "open_r"]), "n": rng.choice([1, 1, 2, 3]), "err": rng.choice(["EIO", "EACCES"]), "path": posixpath.basename(rng.choice(paths[1:]))}]
        elif rng.random() < prof.get("interrupt", 0):
            op["interrupt"] = rng.choice([rng.randrange(1, 40), rng.randrange(1, 400)])
        hist.append(op)
        if rng.random() < 0.4:
            j = rng.randrange(len(paths))
            if paths[j] in scripts:
                hist.append({"op": "rewrite", "p": paths[j], "ops": body(j)})
    return {"family": "scripts", "scripts": scripts, "history": hist, "cfg": {"dirsalt": rng.randrange(1000), "hashsalt": rng.randrange(1 << 30)}}


def shrink(scn):
    n = len(scn["history"])
    for i in range(n - 1, -1, -1):
        if n > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            if any(o["op"] == "proc" for o in s["history"]):
                yield s
    for p in sorted(scn["scripts"]):
        if p != scn["history"][0].get("top"):
            s = _copy.deepcopy(scn)
            del s["scripts"][p]
            if not any(o.get("p") == p for o in s["history"]):
                yield s
        for i in range(len(scn["scripts"][p])):
            s = _copy.deepcopy(scn)
            del s["scripts"][p][i]
            yield s
        for i, o in enumerate(scn["scripts"][p]):
            if o[0] == "try":
                s = _copy.deepcopy(scn)
                s["scripts"][p][i] = o[1]
                yield s
    for i, o in enumerate(scn["history"]):
        for f in ("fsfault", "interrupt"):
            if f in o:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        for f in ("g", "u"):
            for l in sorted(o.get(f, {})):
                s = _copy.deepcopy(scn)
                del s["history"][i][f][l]
                yield s
