"""Scenario family "registry": the licant-libs command and the build-script side of the library registries, under kills, power cuts and disk faults."""
import copy as _copy
import json
import posixpath

from . import kernel
from .common import Faults, Report
from .kernel import SimKilled
from .proc import Sim, event_digest, fresh_module

W = "/w"
G = "/var/lib/licant"
U = "/home/user/.licant"
RULE = "the registry or another file was written by a simulated process"
REAL = ["licant/* (imported from the working tree, unmodified): licant_libs, libs, scripter, core, cli", "CPython 3.12 json, optparse, glob, io buffering on top of the seams"]
STUB = ["file system (in-memory, with page cache against disk, faults, full disk, power cut)", "process death (kill at any call or line)", "standard output and error (recorded)"]
ASSUME = ["a power cut may lose any part of file data not fsynced, and any suffix of the directory changes not committed by an fsync of a directory"]


def parse(data):
    """The mapping a registry file holds: None when there is no file, "bad" when it cannot be read."""
    if data is None:
        return None
    try:
        v = json.loads(data.decode("utf-8"))
    except ValueError:
        return "bad"
    return v if isinstance(v, dict) else "bad"


class PerThread(list):
    """sys.argv of several processes played by threads of one."""

    def __init__(self, table, default):
        super().__init__(default)
        self.table, self.default = table, default

    def mine(self):
        return self.table.get(kernel.get_ident(), self.default)

    def __getitem__(self, i):
        return self.mine()[i]

    def __len__(self):
        return len(self.mine())

    def __iter__(self):
        return iter(self.mine())


class Run:
    def __init__(self, scn, chooser):
        self.scn = scn
        self.rep = Report()
        self.sim = Sim(chooser, dict(scn.get("cfg", {})))
        self.k, self.fs = self.sim.k, self.sim.fs
        self.updates = 0

    def data(self, p):
        return self.fs._read(p) if self.fs._exists(p) and self.fs._find(p).kind == "f" else None

    def isdir(self, p):
        return self.fs._exists(p) and self.fs._find(p).kind == "d"

    # ---- the reference model of one command
    def expect(self, argv, before, cwd):
        """(kind, mapping afterwards, must succeed, may fail)"""
        user = "-u" in argv
        args = [a for a in argv if not a.startswith("-")]
        have = before[U if user else G]
        if have == "bad":
            return "refused", None
        have = dict(have or {})
        if "-l" in argv:
            return "list", None
        if len(args) == 2 and "-r" not in argv:
            p = posixpath.normpath(posixpath.join(cwd, args[1]))
            if not self.fs._exists(p):
                return "refused", None
            have[args[0]] = p
            return "add", have
        if len(args) == 1 and "-r" not in argv:
            d = posixpath.normpath(posixpath.join(cwd, args[0]))
            if self.isdir(d):
                for n in sorted(self.fs._find(d).children):
                    if n.endswith(".g.py") and not n.startswith("."):
                        p = posixpath.join(d, n)
                        if not self.fs._exists(p):
                            return "refused", None
                        have[n.split(".")[0]] = p
            return "adddir", have
        if len(args) == 1:
            if args[0] in have:
                del have[args[0]]
                return "remove", have
            return "absent", None
        return "refused", None

    def command(self, op):
        k, fs, rep = self.k, self.fs, self.rep
        argv = op["argv"]
        fs.sync_all()
        user = "-u" in argv
        mine, other = (U, G) if user else (G, U)
        raw = {p: self.data(p) for p in (G, U)}
        before = {p: parse(raw[p]) for p in (G, U)}
        kind, after = self.expect(argv, before, op.get("cwd", W))
        rep.probe("op_" + kind)
        allowed = [before[mine]] + ([after] if after is not None else []) + ([{}] if before[mine] is None else [])
        faults = Faults(self.sim, op.get("fsfault"))
        k.fault = faults
        k.triggers = []
        if op.get("capacity") is not None:
            fs.capacity = op["capacity"]
        if op.get("crash"):
            t = op["crash"]
            if t[0] == "start":
                k.crash_at = k.ch.points + t[2]
            else:
                k.triggers.append(["crash", t[0], t[1], t[2]])
        n0 = len(k.events)
        bad = []

        # whatever is visible to others, or would be after a kill, at this very moment
        def seen():
            v = parse(self.data(mine))
            if not bad and v not in allowed and not self.same_raw(mine, raw):
                bad.append("after event %d: %r" % (len(k.events), (self.data(mine) or b"")[:60]))
        real_note, real_write = fs.note, fs.write_node

        def note(*a, **kw):
            real_note(*a, **kw)
            seen()

        def write_node(*a, **kw):
            r = real_write(*a, **kw)
            seen()
            return r
        fs.note, fs.write_node = note, write_node

        def body(licant):
            if op.get("stdout_fail") is not None:
                k.out.fail_after = op["stdout_fail"]
                k.out.err = 32
            licant.licant_libs.licant_libs_utility()
        try:
            res = self.sim.process(body, argv=["licant-libs"] + argv, cwd=op.get("cwd", W))
        finally:
            del fs.note, fs.write_node
        k.fault = None
        k.drain()
        k.out = None
        fs.capacity = None
        killed = res.why == "crash"
        if res.why in ("deadlock", "no-progress"):
            rep.add("C15", "the command never ends", str(argv))
            return
        ev = k.events[n0:]
        nodir = not user and not self.isdir(posixpath.dirname(G))
        faulted = nodir or bool(faults.fired) or any(e["ev"] in ("fs_fault", "stdout_fault") for e in ev) or op.get("capacity") is not None
        now = parse(self.data(mine))
        if after is not None and not killed and not faulted:
            self.updates += 1
        if killed:
            rep.probe("killed_at_%s" % ("update" if any(e["ev"] in ("open_w", "fs") for e in ev) else "reading"))
        if faulted and not killed:
            rep.probe("faulted_%s" % ("reported" if res.code else "success"))
        if bad:
            rep.add("C14", "at some moment of an update the registry holds neither the old nor the new contents", bad[0])
        if now not in allowed and not self.same_raw(mine, raw):
            rep.add("C14" if killed or faulted else "C15", "registry holds neither the contents before nor those after the command", "%s: %r" % (argv, (self.data(mine) or b"")[:80]))
        elif not killed and res.code == 0 and after is not None and now != after:
            rep.add("C14" if faulted else "C15", "success reported but the registry was not updated", str(argv))
        elif not killed and not faulted:
            if after is not None and res.code != 0:
                rep.add("C15", "a correct command fails", "%s: %s %s" % (argv, res.exc, res.text(1)[-80:]))
                if self.damaged:
                    rep.add("C14", "an update after a crash or fault fails", "%s: %s" % (argv, res.exc))
            elif kind == "refused" and res.code == 0:
                rep.add("C15", "a command that cannot be carried out reports success", str(argv))
        if self.data(other) != raw[other]:
            rep.add("C15", "the other registry was changed", str(argv))
        if kind in ("list", "refused", "absent") and now != before[mine] and not (before[mine] is None and now == {}):
            rep.add("C15", "registry changed by a command that changes nothing", str(argv))
        if kind == "list" and not killed and not faulted:
            if res.code != 0:
                rep.add("C15", "a correct command fails", "%s: %s" % (argv, res.exc))
            else:
                lines = [l for l in res.text(1).split("\n") if l]
                want = sorted("%s %s" % x for x in (before[mine] or {}).items())
                if sorted(l for l in lines if l in want) != want or len([l for l in lines if " /" in l]) != len(want):
                    rep.add("C15", "listing differs from the registry", "%r not %r" % (lines, want))
        if killed or faulted:
            self.damaged = True
        # ---- power cut right now
        if op.get("power"):
            k.log("power_loss")
            k.count("fault.power")
            fs.power_cut()
            k.log("disk", data=str(self.data(mine)))
            v = parse(self.data(mine))
            if v not in allowed and self.data(mine) != raw[mine]:
                rep.add("C14", "after a power cut the registry holds neither the old nor the new contents", "%s: %r" % (argv, (self.data(mine) or b"")[:80]))
            if self.data(other) != raw[other]:
                rep.add("C14", "after a power cut the other registry is damaged", "%s" % argv)
            self.damaged = True

    def together(self, op):
        """Several commands at the same time: every one has its own copy of licant's modules, its arguments and its process number."""
        k, fs, rep = self.k, self.fs, self.rep
        fs.sync_all()
        cmds = op["cmds"]
        raw = {p: self.data(p) for p in (G, U)}
        before = {p: parse(raw[p]) for p in (G, U)}
        files = [U if "-u" in c["argv"] else G for c in cmds]
        if "bad" in before.values() or any(p == G and not self.isdir(posixpath.dirname(G)) for p in files):
            return
        kinds = [self.expect(c["argv"], before, c.get("cwd", W))[0] for c in cmds]
        states = {p: self.reachable(p, before, [c for c, f in zip(cmds, files) if f == p]) for p in (G, U)}
        k.fault = None
        k.triggers = []
        if op.get("crash"):
            t = op["crash"]
            if t[0] == "start":
                k.crash_at = k.ch.points + t[2]
            else:
                k.triggers.append(["crash", t[0], t[1], t[2]])
        bad = []

        def seen():
            for p in (G, U):
                v = parse(self.data(p))
                if not bad and v not in states[p] and self.data(p) != raw[p]:
                    bad.append("after event %d: %r" % (len(k.events), (self.data(p) or b"")[:60]))
        real_note, real_write = fs.note, fs.write_node

        def note(*a, **kw):
            real_note(*a, **kw)
            seen()

        def write_node(*a, **kw):
            r = real_write(*a, **kw)
            seen()
            return r
        codes = {}
        outs = {}

        def body(licant):
            import os
            import sys
            import threading
            mods = [licant.licant_libs]
            me = k.by_ident[kernel.get_ident()]
            me.no_yield += 1
            try:
                for _ in cmds[1:]:
                    mods.append(fresh_module())
            finally:
                me.no_yield -= 1
            args = {}
            sys.argv = PerThread(args, list(sys.argv))

            def one(i):
                me = kernel.get_ident()
                k.pids[me] = 1000 + i * self.scn.get("pidstep", 1)
                args[me] = ["licant-libs"] + cmds[i]["argv"]
                code = 1
                try:
                    mods[i].licant_libs_utility()
                    code = 0
                except SystemExit as e:
                    code = 0 if e.code is None else e.code & 0xFF if isinstance(e.code, int) else 1
                except SimKilled:
                    raise
                except Exception as e:
                    outs[i] = repr(e)
                finally:
                    codes[i] = code
                    k.log("command_end", i=i, code=code)
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(cmds))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        fs.note, fs.write_node = note, write_node
        try:
            res = self.sim.process(body, argv=["licant-libs"], cwd=cmds[0].get("cwd", W))
        finally:
            del fs.note, fs.write_node
            k.pids.clear()
        k.drain()
        text = res.text(1)
        k.out = None
        rep.probe("together_%d" % len(cmds))
        if res.why in ("deadlock", "no-progress"):
            rep.add("C19", "concurrent commands never end", str([c["argv"] for c in cmds]))
            return
        what = str([c["argv"] for c in cmds])
        killed = res.why == "crash"
        if res.exc or (not killed and len(codes) != len(cmds)):
            raise kernel.HarnessError("concurrent commands: %s" % res.exc)
        if killed:
            rep.probe("together_killed")
        else:
            self.updates += 1
        if bad:
            rep.add("C19", "a moment at which the registry holds what no order of the commands gives", bad[0])
        for p in (G, U):
            mine = [i for i in range(len(cmds)) if files[i] == p]
            changing = [i for i in mine if kinds[i] in ("add", "adddir", "remove")]
            now = parse(self.data(p))
            if now not in states[p] and self.data(p) != raw[p]:
                rep.add("C19", "the registry holds what no order of the commands gives", "%s: %r" % (what, (self.data(p) or b"")[:80]))
            if killed:
                continue
            if any(kinds[i] == "absent" for i in mine):
                continue        # it writes what it has read
            if len(changing) == 1:
                only = self.expect(cmds[changing[0]]["argv"], before, cmds[changing[0]].get("cwd", W))[1]
                if codes[changing[0]] == 0 and now != only:
                    rep.add("C19", "an update without competition was lost", what)
            elif changing and all(codes[i] == 0 for i in changing):
                # the one that wrote last is seen
                if not any(self.applied(s, cmds[i], p, before) for i in changing for s in [now]):
                    rep.add("C19", "no update of several has reached the registry", what)
        if not killed:
            for i, c in enumerate(cmds):
                if kinds[i] in ("add", "adddir", "remove", "list") and codes[i] != 0:
                    rep.add("C19", "a command fails because another one runs", "%s of %s: %s %s" % (c["argv"], what, outs.get(i), text[-120:]))
        if op.get("power"):
            k.log("power_loss")
            k.count("fault.power")
            fs.power_cut()
            for p in (G, U):
                v = parse(self.data(p))
                if v not in states[p] and self.data(p) != raw[p]:
                    rep.add("C19", "after a power cut the registry holds what no order of the commands gives", "%s: %r" % (what, (self.data(p) or b"")[:80]))

    def reachable(self, p, before, cmds):
        """Every mapping that some of the commands, in some order, make of the contents before."""
        out = [before[p]]

        def go(v, left):
            for i in range(len(left)):
                kind, after = self.expect(left[i]["argv"], dict(before, **{p: v}), left[i].get("cwd", W))
                if kind == "absent":
                    after = dict(v or {})
                if after is not None:
                    if after not in out:
                        out.append(after)
                    go(after, left[:i] + left[i + 1:])
        go(before[p], cmds)
        return out

    def applied(self, now, cmd, p, before):
        """Does the mapping show the effect of the command?"""
        if not isinstance(now, dict):
            return False
        args = [a for a in cmd["argv"] if not a.startswith("-")]
        if "-r" in cmd["argv"]:
            return args[0] not in now
        kind, after = self.expect(cmd["argv"], {G: {}, U: {}}, cmd.get("cwd", W))
        return all(now.get(n) == q for n, q in (after or {}).items())

    damaged = False

    def same_raw(self, p, raw):
        return self.data(p) == raw[p]

    def script(self, op):
        """A build script includes libraries, then the listing command of licant is asked."""
        k, fs, rep = self.k, self.fs, self.rep
        g, u = parse(self.data(G)), parse(self.data(U))
        if "bad" in (g, u):
            return
        view = dict(g or {})
        view.update(u or {})

        def body(licant):
            if op["what"] == "list":
                licant.cli.cliexecute(default="l", argv=["l", "list"])
            else:
                for n in op["names"]:
                    licant.libs.include(n)
                    print("AFTER %s" % n)
                for w in op.get("then", []):
                    print("THEN %s" % w)
                    licant.cli.cliexecute(default="l", argv=["l", w])
        res = self.sim.process(body, argv=["make.py"], cwd=W)
        text = res.text(1)
        k.drain()
        k.out = None
        rep.probe("view_" + op["what"])
        who = ["C15"] + (["C14"] if self.damaged else [])
        if op["what"] == "list":
            want = sorted("%s: %s" % x for x in view.items())
            got = sorted(l for l in text.split("\n") if ": /" in l)
            if res.code or got != want:
                for p in who:
                    rep.add(p, "build scripts do not see the registered libraries", "%r not %r (%s)" % (got, want, res.exc))
            return
        want = []
        ok = True
        done = set()
        for n in op["names"]:
            if n not in done:
                if n not in view or not fs._exists(view[n]):
                    ok = False
                    break
                want.append("LOADED %s" % view[n])
            done.add(n)
            want.append("AFTER %s" % n)
        got = [l for l in text.split("\n") if l.startswith(("LOADED", "AFTER"))]
        if got != want if ok else got[:len(want)] != want:
            for p in who:
                rep.add(p, "a build script does not load the registered library", "%r not %r (%s)" % (got, want, res.exc))
        if ok and op.get("then") and not res.code:
            lines, part = {}, None
            for l in text.split("\n"):
                if l.startswith("THEN "):
                    part = lines.setdefault(l, [])
                elif part is not None and ": /" in l:
                    part.append(l)
            for w in op["then"]:
                want = sorted("%s: %s" % (n, view[n]) for n in (view if w == "list" else done))
                if sorted(lines.get("THEN " + w, [])) != want:
                    for p in who:
                        rep.add(p, "a build script does not list its libraries (%s)" % w, "%r not %r" % (sorted(lines.get("THEN " + w, [])), want))
        if ok and res.code:
            for p in who:
                rep.add(p, "a build script fails although its libraries are registered", "%s" % res.exc)


def run(scn, chooser):
    r = Run(scn, chooser)
    k, fs, rep = r.k, r.fs, r.rep
    try:
        for d in scn.get("dirs", []):
            fs._mkdirs(d)
        for p, d in sorted(scn["init"].items()):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, d)
        for p, t in sorted(scn.get("links", {}).items()):
            fs._mkdirs(posixpath.dirname(p))
            fs.symlink(t, p)
        for op in scn["history"]:
            k.now_ns += 5_000_000_000
            if op["op"] == "cmd":
                r.command(op)
            elif op["op"] == "script":
                r.script(op)
            elif op["op"] == "together":
                r.together(op)
            elif op["op"] == "write":
                fs._mkdirs(posixpath.dirname(op["p"]))
                fs._write(op["p"], op["c"])
            elif op["op"] == "del":
                if fs._exists(op["p"]):
                    fs._unlink(op["p"])
            if k.unsupported:
                rep.skip(k.unsupported)
                break
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = r.updates > 0 or any(e["ev"] in ("fs", "open_w") for e in k.events)
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
NAMES = ["a", "b", "zlib", "my-lib", "lib.x", "\u0431\u0438\u0431\u043b", "with space", "u", "r"]
PARTS = ["x/a", "x/b", "a/b", "./a", "a/"]         # names that look like paths: asked for, or registered by hand
MARKS = ["fs", "open_w", "close_w", "print", "process"]


def gen(rng, prof):
    names = rng.sample(NAMES, rng.choice([2, 3, 3, 4]))
    if "lib.x" in names and len(names) > 2 and rng.random() < 0.5:
        names.remove("lib.x")
    libdirs = ["/w/libs", "/usr/share/libs", "/home/user/my libs"][:rng.choice([1, 2, 3])]
    if rng.random() < 0.1:
        libdirs.append(rng.choice(["/opt/libs [1.0]", "/opt/lib?", "/opt/*"]))
    init = {}
    paths = []

    def lib(path):
        init[path] = "print('LOADED %s')\n" % path
        paths.append(path)
    for d in libdirs:
        stems = set()
        for n in rng.sample(names, rng.choice([1, 2, min(3, len(names))]) if len(names) > 2 else 1):
            stem = n.split(".")[0]
            if stem in stems:
                continue
            stems.add(stem)
            lib("%s/%s.g.py" % (d, n))
        if rng.random() < 0.3:
            init["%s/other.py" % d] = "print('not a library')\n"
    lib("/w/%s.g.py" % "here")
    # what the registries hold at first
    for p in (G, U):
        x = rng.random()
        if x < 0.4:
            continue
        if x < 0.5:
            init[p] = "{}"
        elif x < 0.54:
            init[p] = rng.choice(["", "{", "not json"])
        else:
            reg = {n: rng.choice(paths) for n in rng.sample(names, rng.choice([1, 1, 2]))}
            if rng.random() < prof.get("big", 0.2):
                for i in range(rng.choice([50, 300])):
                    reg["lib%04d" % i] = "/usr/share/libs/some/where/lib%04d.g.py" % i
            init[p] = json.dumps(reg, indent=rng.choice([None, 4]))
    dirs = ["/w/empty"] + (["/var/lib"] if rng.random() < 0.9 else [])
    scn = {"family": "registry", "init": init, "dirs": dirs, "cfg": {"dirsalt": rng.randrange(1000), "hashsalt": rng.randrange(1 << 30)}, "history": [],
           "pidstep": rng.choice([1, 1, 4, 7, 10, 64, 100, 256, 1000, 32768])}
    if rng.random() < 0.2:
        scn["cfg"]["short_writes"] = True
    if rng.random() < 0.1 and U in init:
        init["/home/user/dotfiles/licant"] = init.pop(U)
        scn["links"] = {U: "/home/user/dotfiles/licant"}

    def path_arg(p, cwd):
        return rng.choice([p, posixpath.relpath(p, cwd), posixpath.join(posixpath.dirname(p), ".", posixpath.basename(p))])

    def cmd(final=False):
        cwd = rng.choice([W, W, "/w/empty", libdirs[0]])
        u = ["-u"] if rng.random() < 0.5 else []
        x = rng.random()
        if x < 0.4:
            argv = u + [rng.choice(names) if rng.random() < 0.93 else rng.choice(PARTS), path_arg(rng.choice(paths), cwd)]
        elif x < 0.55:
            argv = u + [path_arg(rng.choice(libdirs + ["/w/empty"]), cwd)]
        elif x < 0.8:
            argv = u + ["-r", rng.choice(names) if rng.random() < 0.85 else rng.choice(PARTS)]
        elif x < 0.9:
            argv = u + ["-l"]
        else:
            argv = u + rng.choice([[rng.choice(names), "/w/nosuch.g.py"], [], ["a", "b", "c"], ["-r"], ["-r", "a", "b"]])
        if rng.random() < 0.2 and u and argv[0] == "-u":
            argv = argv[1:] + ["-u"]
        op = {"op": "cmd", "argv": argv, "cwd": cwd}
        if final:
            return op
        if rng.random() < prof.get("crash", 0):
            if rng.random() < 0.4:
                op["crash"] = ["start", 1, rng.choice([rng.randrange(30), rng.randrange(300), rng.randrange(2000)])]
            else:
                op["crash"] = [rng.choice(MARKS), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3, 5, rng.randrange(30)])]
        if rng.random() < prof.get("fsfault", 0):
            f = rng.choice(["write", "write", "open_w", "fsync", "rename", "read", "open_r", "stat", "unlink", "chmod"])
            op["fsfault"] = [{"op": f, "n": rng.choice([1, 1, 1, 2, 3]), "err": rng.choice(["EIO", "ENOSPC", "EACCES", "EROFS"]), "path": "licant"}]
        elif rng.random() < prof.get("full", 0):
            op["capacity"] = rng.choice([0, 1, 10, 50, 100, 1000, 8192])
        elif rng.random() < prof.get("stdout", 0):
            op["stdout_fail"] = rng.choice([0, 1, 2])
        if rng.random() < prof.get("power", 0):
            op["power"] = 1
        return op

    def view():
        if rng.random() < 0.4:
            return {"op": "script", "what": "list"}
        op = {"op": "script", "what": "include", "names": [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]}
        if rng.random() < 0.4:
            op["then"] = [rng.choice(["list", "included"])]      # the words of one command line only
        return op
    n = rng.choice([1, 2, 3, 4, 6, 8])
    hist = []
    for _ in range(n):
        if rng.random() < prof.get("together", 0):
            o = {"op": "together", "cmds": [cmd(True) for _ in range(rng.choice([2, 2, 2, 3]))]}
            there = o["cmds"][0]["cwd"]         # one directory for all
            for c in o["cmds"][1:]:
                c["argv"] = [posixpath.normpath(posixpath.join(c["cwd"], a)) if ("/" in a or a == ".") and a not in PARTS else a for a in c["argv"]]
                c["cwd"] = there
            if rng.random() < 0.7:
                u = rng.random() < 0.5
                for c in o["cmds"]:
                    c["argv"] = [a for a in c["argv"] if a != "-u"]
                    if u:
                        c["argv"].insert(0, "-u")
            if rng.random() < prof.get("crash", 0):
                o["crash"] = ["start", 1, rng.choice([rng.randrange(60), rng.randrange(600)])] if rng.random() < 0.4 else [rng.choice(MARKS), rng.choice([1, 2, 3, 4]), rng.choice([0, 0, 1, 2, 3, 5, rng.randrange(30)])]
            if rng.random() < prof.get("power", 0):
                o["power"] = 1
            hist.append(o)
        else:
            hist.append(cmd())
        if rng.random() < 0.3:
            hist.append(view())
        if rng.random() < 0.1:
            hist.append({"op": "del", "p": rng.choice(paths)} if rng.random() < 0.3 else {"op": "write", "p": rng.choice(paths), "c": ""})
            if hist[-1]["op"] == "write":
                hist[-1]["c"] = "print('LOADED %s')\n" % hist[-1]["p"]
    hist.append(cmd(True))
    hist.append(view())
    scn["history"] = hist
    return scn


def shrink(scn):
    n = len(scn["history"])
    for i in range(n - 1, -1, -1):
        if n > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            yield s
    for i, op in enumerate(scn["history"]):
        for f in ("crash", "fsfault", "capacity", "power", "stdout_fail"):
            if f in op:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        if op["op"] == "together" and len(op["cmds"]) > 2:
            for j in range(len(op["cmds"])):
                s = _copy.deepcopy(scn)
                del s["history"][i]["cmds"][j]
                yield s
        if op["op"] == "script" and len(op.get("names", [])) > 1:
            for j in range(len(op["names"])):
                s = _copy.deepcopy(scn)
                del s["history"][i]["names"][j]
                yield s
    for p in sorted(scn["init"]):
        s = _copy.deepcopy(scn)
        del s["init"][p]
        yield s
    for p in (G, U):
        reg = parse(scn["init"][p].encode()) if p in scn["init"] else None
        if isinstance(reg, dict) and len(reg) > 1:
            for keep in (list(reg)[:1], list(reg)[:len(reg) // 2], list(reg)[len(reg) // 2:]):
                s = _copy.deepcopy(scn)
                s["init"][p] = json.dumps({x: reg[x] for x in keep})
                yield s
    if scn.get("links"):
        s = _copy.deepcopy(scn)
        s["links"] = {}
        yield s
    if "short_writes" in scn["cfg"]:
        s = _copy.deepcopy(scn)
        del s["cfg"]["short_writes"]
        yield s
