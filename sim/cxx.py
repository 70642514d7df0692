"""Scenario family "cxx": applications, libraries and objects built from C/C++ modules, with the dependency files licant keeps between processes.

The reference is a clean build: for every object the sources and headers its compilation would read now, found by a small preprocessor of our own over
the declared include paths; only the flags are taken from the compile command that licant used."""
import copy as _copy
import fnmatch
import posixpath
import random

from . import builds
from .builds import W, gen_cfg, gen_trigger
from .common import Faults, Report, noise_bytes
from .kernel import SimKilled
from .proc import event_digest
from .shell import MissingHeader, cc_args, link_content, obj_content, objcopy_args, parse, preprocess, qt_content, strip_conditionals

REAL = ["licant/* (imported from the working tree, unmodified): cxx_modules, cxx_make, modules, scripter, core, solver, make, cache, cli, util",
        "CPython 3.12 asyncio, concurrent.futures, threading, queue, subprocess, glob, argparse on top of the seams"]
STUB = ["compilers, linker and archiver, moc, uic (simulated: #include, #ifdef, -I, -D, -MM; objects hold digests of what was read)"] + builds.STUB
ASSUME = ["no new header hides another header of the same name, no source is taken out of a list or glob, the script itself does not change",
          "a header is found through the declared include paths; system headers do not change"] + builds.ASSUME

CXX = ("cpp", "cxx", "cc")
RULE = "at least one command ran, and commands overlapped, or the scheduler switched threads, or a later build remade some of the outputs"
PRODUCTS = ("app", "shared", "static", "objects")
MADE = PRODUCTS + ("hand", "image")


def absol(p):
    return posixpath.normpath(p if p.startswith("/") else posixpath.join(W, p))


def script_dir(scn, d):
    return posixpath.dirname(d["script"]) if d.get("script") else ""


class Project:
    """What the declarations mean, at the moment a process reads its script."""

    def __init__(self, scn, fs):
        self.scn, self.fs = scn, fs
        self.by = {d["name"]: d for d in scn["decls"] if "name" in d}
        self.made = {}          # generated file -> file it is a copy of
        for d in scn["decls"]:
            if d["k"] == "rule":
                self.made[absol(d["out"])] = absol(d["in"])
        self.products = {}
        for d in scn["decls"]:
            if d["k"] in MADE:
                self.product(d["name"], d, None)

    def glob(self, p):
        a = absol(p)
        if "*" not in p:
            return [a]
        dn, pat = posixpath.split(a)
        try:
            names = sorted(self.fs._find(dn).children)
        except (OSError, AttributeError):
            return []
        return [dn + "/" + n for n in names if fnmatch.fnmatchcase(n, pat) and not n.startswith(".")]

    def own(self, d):
        base = posixpath.join(script_dir(self.scn, d), d.get("srcdir", ""))
        return [x for s in d.get("sources", []) for x in self.glob(posixpath.join(base, s))]

    def included(self, d):
        """Modules whose fields are added to d's."""
        out = []

        def inc(names):
            for n in names:
                m = self.by[n]
                out.append(m)
                inc(m.get("include_modules", []))
        inc(d.get("include_modules", []))
        seen, queue = [], list(d.get("mdepends", []))
        while queue:
            n = queue.pop(0)
            if n not in seen:
                seen.append(n)
                queue += self.by[n].get("mdepends", [])
        return out + [self.by[n] for n in seen]

    def product(self, name, d, parent):
        mods = [d] + self.included(d)
        p = {"name": name, "kind": d["k"] if d["k"] in PRODUCTS else d.get("type", "objects"), "decl": d}
        up = self.products.get(parent)
        p["builddir"] = absol(d.get("builddir") or (up["builddir"] if up else "build"))
        p["target"] = absol(d.get("target") or name) if p["kind"] != "objects" else None
        p["incs"] = (list(up["incs"]) if up else [])
        p["sources"] = []
        p["local"] = list(up["local"]) if up else []
        for m in mods:
            dn = script_dir(self.scn, m)
            p["incs"] += [absol(posixpath.join(dn, i)) for i in m.get("incs", [])]
            p["sources"] += self.own(m)
            p["local"] += [(a, absol(posixpath.join(dn, b))) for a, b in m.get("local_headers", [])]
        p["explicit"] = [x for g in d.get("depends", []) for x in self.glob(g)]
        p["extra"] = [absol(x) for x in d.get("objects", [])]
        if d["k"] == "image":
            p["extra"] = [absol(d["of"])]
            p["kind"], p["target"] = "image", absol(name)
        for a, b in p["local"]:
            c = p["builddir"] + "/__LOCAL_HEADERS__/" + a
            self.made[c] = b
            p["explicit"].append(c)
        if p["local"]:
            p["incs"].append(p["builddir"] + "/__LOCAL_HEADERS__")
        key = name if parent is None else parent + ">" + name
        p["moc"], p["ui"] = [], []
        for m in mods:
            base = posixpath.join(script_dir(self.scn, m), m.get("srcdir", ""))
            p["moc"] += [absol(posixpath.join(base, x)) for x in m.get("qt_moc", [])]
            p["ui"] += [absol(posixpath.join(base, x)) for x in m.get("qt_ui", [])]
        # Where the generated headers lie is not for us to say: a clean build finds them by the name that is included.
        for x in p["ui"]:
            self.made["/.ui/%s/%s" % (key, ui_name(x))] = (x, "uic")
        if p["ui"]:
            p["incs"].append("/.ui/" + key)
        self.products[key] = p
        p["subs"] = []
        for n in d.get("modules", []):
            p["subs"].append(self.product(n, self.by[n], key))
        return key

    def learn(self, out, c):
        """A command was seen that makes a generated source or header."""
        if c["kind"] not in ("moc", "uic") or not c["ins"]:
            return
        x = c["ins"][0]
        for p in self.products.values():
            if x in p["moc" if c["kind"] == "moc" else "ui"] and out.startswith(p["builddir"] + "/"):
                self.made[out] = (x, c["kind"])
                where = p["sources"] if c["kind"] == "moc" else p["explicit"]
                if out not in where:
                    where.append(out)

    # ---- contents
    def exists(self, a):
        if a in self.made:
            m = self.made[a]
            return self.exists(m[0] if isinstance(m, tuple) else m)
        try:
            return self.fs._find(a).kind == "f"
        except OSError:
            return False

    def read(self, a):
        m = self.made.get(a)
        if isinstance(m, tuple):
            return qt_content(m[1], m[0], self.read(m[0]))
        return self.read(m) if m else self.fs._read(a)

    def closure(self, src, p, defs):
        """[(path, content)] a compilation of src would read, or MissingHeader."""
        return preprocess(self.read, self.exists, W, src, p["incs"], defs)

    def tree(self, t):
        """All products target t is made of."""
        out = []

        def go(key):
            if key in out:
                return
            out.append(key)
            for s in self.products[key]["subs"]:
                go(s)
            for x in self.products[key]["extra"]:
                for k2, q in self.products.items():
                    if q["target"] == x and ">" not in k2:
                        go(k2)
        d = self.by[t]
        for n in d["targets"] if d["k"] == "fileset" else [t]:
            go(n)
        return out


def api(licant, d):
    """Declare d as a build script would."""
    kw = {}
    for a, b in (("sources", "sources"), ("incs", "include_paths"), ("defines", "defines"), ("cxx_flags", "cxx_flags"), ("cc_flags", "cc_flags"),
                 ("optimize", "optimize"), ("builddir", "builddir"), ("srcdir", "srcdir"), ("depends", "depends"), ("mdepends", "mdepends"),
                 ("include_modules", "include_modules"), ("objects", "objects"), ("cxxstd", "cxxstd"), ("qt_moc", "qt_moc"), ("qt_ui", "qt_ui")):
        if d.get(a):
            kw[b] = _copy.copy(d[a])
    if d.get("local_headers"):
        kw["local_headers"] = [tuple(x) for x in d["local_headers"]]
    if d.get("modules"):
        kw["modules"] = [licant.submodule(x) for x in d["modules"]]
    if d.get("target"):
        kw["target"] = d["target"]
    if d["k"] == "module":
        if d.get("type"):
            kw["type"] = d["type"]
        licant.module(d["name"], **kw)
    elif d["k"] == "app":
        licant.cxx_application(d["name"], **kw)
    elif d["k"] == "shared":
        licant.cxx_shared_library(d["name"], **kw)
    elif d["k"] == "static":
        licant.cxx_static_library(d["name"], **kw)
    elif d["k"] == "objects":
        licant.cxx_objects(d["name"], **kw)
    elif d["k"] == "rule":
        licant.makefile(d["out"], [d["in"]], "cat %s > {tgt}" % d["in"])
        licant.source(d["in"])
    elif d["k"] == "hand":       # what modules do, written down one by one
        L = licant.cxx_make
        opts = L.options(include_paths=list(d["incs"]), **{f: d[f] for f in ("defines", "cxx_flags", "cc_flags", "optimize") if d.get(f)})
        objs = []
        for x in d["sources"] + d.get("depends", []):
            if not licant.core.default_core().has(x):
                licant.source(x)
        for x in d["sources"]:
            objs.append("%s/%s.o" % (d["builddir"], stem(posixpath.basename(x))))
            L.object(src=x, tgt=objs[-1], opts=opts, deps=[x] + d["depends"] if d.get("depends") else None)
        {"app": L.executable, "shared": L.dynamic_library, "static": L.static_library}[d["type"]](d["name"], objs, **({"opts": opts} if d.get("defines") else {}))
    elif d["k"] == "image":
        licant.objcopy(licant.gcc_toolchain(d.get("prefix", "")), d["name"], d["of"], d["format"], list(d["sections"]))
    elif d["k"] == "fileset":
        licant.fileset(d["name"], list(d["targets"]))


def script_text(decls):
    out = ["import licant"]
    for d in decls:
        kw = ["%r" % d["name"]]
        for a, b in (("sources", "sources"), ("incs", "include_paths"), ("defines", "defines"), ("cxx_flags", "cxx_flags"), ("srcdir", "srcdir"),
                     ("mdepends", "mdepends"), ("include_modules", "include_modules"), ("type", "type"), ("target", "target"), ("builddir", "builddir"),
                     ("local_headers", "local_headers"), ("qt_moc", "qt_moc"), ("qt_ui", "qt_ui")):
            if d.get(a):
                v = [tuple(x) for x in d[a]] if a == "local_headers" else d[a]
                kw.append("%s=%r" % (b, v))
        out.append("licant.module(%s)" % ", ".join(kw))
    return "\n".join(out) + "\n"


class Run(builds.Run):
    def __init__(self, scn, chooser):
        super().__init__(scn, chooser)
        self.done = {}         # output -> (mtimes of what went into it, order number) of the last successful command
        self.cmds = {}         # output -> dict(kind, src, ins, flags, incs, lang) of the last command
        self.dirty = set()     # outputs a failed or disturbed process may have left behind in any state
        self.everything_dirty = False
        self.pos = 0
        self.running = {}
        self.loaded = set()
        self.writing = set()   # outputs that are being written
        self.torn = set()      # outputs a killed process left half-written

    # ---- commands
    @staticmethod
    def analyse(cmd):
        other = None
        try:
            ast = parse(cmd)
        except Exception:
            return None
        for _, pipe in ast:
            for c in pipe:
                a = c["argv"]
                if not a:
                    continue
                n = posixpath.basename(a[0])
                if n in ("c++", "cc", "g++", "gcc", "clang", "clang++"):
                    ins, o, flags, incs, mode = cc_args(a)
                    return {"kind": mode, "ins": [absol(x) for x in ins], "flags": flags, "incs": incs, "lang": "c" if n in ("cc", "gcc", "clang") else "c++",
                            "shared": "--shared" in flags}
                if n == "objcopy" or n.endswith("-objcopy"):
                    return {"kind": "image", "ins": [absol(x) for x in objcopy_args(a)[0][:1]], "opts": objcopy_args(a)[1], "tool": a[0]}
                if n == "ar":
                    pos = [x for x in a[1:] if not x.startswith("-")]
                    return {"kind": "ar", "ins": [absol(x) for x in pos[(1 if a[1].startswith("-") else 2):]]}
                if n in ("moc", "uic"):
                    pos = [x for x in a[1:] if not x.startswith("-")]
                    return {"kind": n, "ins": [absol(pos[0])] if pos else []}
                if n in ("cat", "cp"):
                    pos = [x for x in a[1:] if not x.startswith("-")]
                    return {"kind": "copy", "ins": [absol(pos[0])] if pos else []}
                if n == "rm":
                    other = {"kind": "rm", "ins": []}
        return other

    def cmd_plan(self, proc):
        plan = {}
        r = random.Random("%s|%s" % (self.scn.get("durseed"), proc.outs))
        style = self.scn.get("durstyle", 0)
        if style == 1:
            plan["dur"] = [0.1, 0.1, 0]
        elif style == 2:
            plan["dur"] = [r.choice([0, 0.05, 0.1, 0.5, 1]), r.choice([0, 0, 0.1, 0.3]), r.choice([0, 0, 0.1])]
        c = self.analyse(proc.cmd)
        if c is None:
            return plan
        if c["kind"] in ("obj", "dep", "moc", "uic") and c["ins"]:
            name = "%s:%s" % (c["kind"], c["ins"][0])
        elif c["kind"] in ("link", "ar", "copy", "image") and proc.outs:
            name = "%s:%s" % (c["kind"], proc.outs[0])
        else:
            return plan
        f = self.fails.get(name)
        if f:
            plan["fail"] = f
        n = self.noise.get("all")
        if n and r.random() < 0.7:
            plan["err"] = noise_bytes("%s#%d" % (name, proc.pid), "err", n)
        return plan

    def mtime(self, p):
        try:
            return self.fs._find(p).mtime
        except OSError:
            return None

    # ---- a process
    def process(self, op):
        k, rep, fs = self.k, self.rep, self.fs
        self.fails = op.get("fail", {})
        self.noise = op.get("noise", {})
        faults = Faults(self.sim, op.get("fsfault"), op.get("foreign"))
        k.triggers = []
        for what in ("interrupt", "crash"):
            if op.get(what):
                t = op[what]
                if t[0] == "start":
                    setattr(k, what + "_at", k.ch.points + t[2])
                else:
                    k.triggers.append([what, t[0], t[1], t[2]])
        k.fault = faults

        def on_int():
            if op.get("sigint_cmds") == "die":
                for p in list(k.procs):
                    p.kill(2)
        k.on_interrupt = on_int
        k.on_quiescent = None
        infos = []
        self.declared = False
        project = Project(self.scn, fs)
        self.project = project
        for x, c in sorted(self.cmds.items()):
            project.learn(x, c)
        self.note_user_changes()
        self.loaded = {x for x, c in self.cmds.items() if c["kind"] == "dep" and fs._exists(x) and fs._read(x)
                       and all(fs._exists(i) for i in self.done.get(x, ()) if i)}

        def body(licant):
            done = set()
            for d in self.scn["decls"]:
                if d.get("script"):
                    if d["script"] not in done:
                        done.add(d["script"])
                        licant.execute(d["script"])
                else:
                    api(licant, d)
            self.declared = True
            r = None
            for o in op["ops"]:
                info = {"op": o, "first": len(k.events), "before": self.snapshot(), "starts": []}
                infos.append(info)
                k.log("op_start", op=o["op"], target=o["t"])
                try:
                    r = info["result"] = self.perform(licant, o)
                except SimKilled:
                    raise
                except BaseException as e:
                    info["exc"] = e
                    if o["via"] == "cli" or isinstance(e, KeyboardInterrupt) or o is op["ops"][-1]:
                        raise
                finally:
                    if not k.killed:
                        info["ended"] = True
                        info["last"] = len(k.events)
                        info["after"] = self.snapshot()
                        info["wrong"], info["verified"] = [], {}
                        if o["op"] == "build":
                            self.contents(o["t"], info["wrong"], info["verified"])
                        k.log("op_end", op=o["op"])
            return r
        self.infos = infos
        self.jobs_running = 0
        k.listener = self.listen
        try:
            res = self.sim.process(body, cwd=W, env=None)
        finally:
            k.listener = None
        if res.why == "crash":
            if op.get("crash_mode") == "group":
                for p in list(k.procs):
                    if p.current_out is None or p.current_out.endswith(".d") and not (fs._exists(p.current_out) and fs._read(p.current_out)):
                        p.kill(9)
                        rep.probe("commands_killed_with_licant")
            rep.probe("killed_with_commands_running" if k.procs else "killed")
        k.listener = self.listen
        k.drain()
        k.listener = None
        self.dirty |= {o for o, _, _ in self.running.values()}
        self.running.clear()
        if res.why == "crash":
            self.torn |= {x for x in self.writing if not (x.endswith(".d") and not (fs._exists(x) and fs._read(x)))}
            if self.writing:
                rep.probe("torn_by_kill")
        self.writing.clear()
        k.fault = None
        k.on_interrupt = None
        k.out = None
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        self.after(op, res, infos, faults)
        self.advance_clock()
        return res

    def perform(self, licant, o):
        core = licant.core.default_core()
        t, j, via = o["t"], o["j"], o["via"]
        act = "clean" if o["op"] == "clean" else None
        if via == "cli":
            argv = list(o.get("flags", [])) + ["-j", str(j)]
            if o.get("deflt") and act is None:
                licant.cli.cliexecute(default=t, argv=argv)
            else:
                licant.cli.cliexecute(argv=argv + [t] + ([act] if act else []))
            return "cli"
        core.runtime["threads"] = j
        if via == "do":
            return licant.do(t, act)
        tgt = core.get(t)
        return tgt.invoke(act or tgt.default_action)

    # ---- what happens, as it happens
    def listen(self, e):
        t = e["ev"]
        if t == "cmd_start":
            c = self.analyse(e["cmd"])
            if c is None or c["kind"] == "rm" or not e["outs"]:
                return
            out = e["outs"][0]
            self.project.learn(out, c)
            self.starts(out, c, e)
            self.running[e["pid"]] = (out, c, self.stamps(out, c))
            self.writing.add(out)
        elif t == "cmd_end":
            r = self.running.pop(e["pid"], None)
            if r is None:
                return
            out, c, st = r
            if e["rc"] == 0:
                self.done[out] = st
                self.dirty.discard(out)
                self.writing.discard(out)
                self.torn.discard(out)
            else:
                self.dirty.add(out)

    def explicit(self, src, obj):
        out = set()
        for p in self.project.products.values():
            if src in p["sources"] and obj.startswith(p["builddir"] + "/"):
                out |= set(p["explicit"])
        return out

    def stamps(self, out, c):
        """Time stamps of everything this command reads now."""
        ins = set(c["ins"])
        if c["kind"] in ("obj", "dep"):
            try:
                for path, _ in preprocess(self.fs._read, lambda a: self.fs._exists(a) and self.fs._find(a).kind == "f", W, c["ins"][0], c["incs"], defs_of(c)):
                    ins.add(absol(path))
            except (MissingHeader, OSError):
                return {None: None}
            ins |= self.explicit(c["ins"][0], out)
            if c["kind"] == "obj":
                ins |= {x for x in self.cmds if self.cmds[x]["kind"] == "dep" and self.cmds[x]["ins"] == c["ins"] and stem(x) == stem(out)}
        elif c["kind"] in ("moc", "uic") and c["ins"]:
            for p in self.project.products.values():
                if c["ins"][0] in p["moc"] + p["ui"] and out.startswith(p["builddir"] + "/"):
                    ins |= {x for x in p["explicit"] if c["kind"] == "moc" or not (isinstance(self.project.made.get(x), tuple))}
        return {p: self.mtime(p) for p in ins}

    def starts(self, out, c, e):
        rep, k = self.rep, self.k
        info = self.infos[-1] if self.infos else None
        now = self.stamps(out, c)
        busy = {o for o, _, _ in self.running.values()}
        # everything it reads must be finished
        for p in sorted(x for x in now if x):
            if p in busy:
                self.bad("C01", "a command started while what it reads was being made", "%s reads %s" % (out, p))
        last = self.done.get(out)
        self.cmds[out] = c
        if info is None or info.get("ended"):       # a worker may go on for a moment after an interrupt
            return
        if out in info["starts"]:
            self.bad("C02", "a command ran twice in one build", out)
        info["starts"].append(out)
        rep.probe("ran_" + c["kind"])
        n = len(self.running) + 1
        if info["op"]["j"] and n > info["op"]["j"]:
            rep.add("C06", "more commands at once than jobs", "%d of %d" % (n, info["op"]["j"]))
        if n > 1:
            rep.probe("parallel_commands")
        # is it needed?
        if last is None or out in self.dirty or self.mtime(out) is None or None in now or None in last:
            return
        if c["kind"] == "dep" and out not in self.loaded:
            return       # headers are read with the script: a file that was not there then is made by every build of the process
        if set(now) & set(info["starts"][:-1]):
            return       # something it reads was made anew
        if all(self.mtime(p) == m for p, m in last.items()) and set(now) <= set(last):
            self.bad("C08", "a command ran although nothing it depends on has changed", out)

    def note_user_changes(self):
        ev = self.k.events
        while self.pos < len(ev):
            e = ev[self.pos]
            self.pos += 1
            if e["ev"] == "user":
                self.dirty.add(e["path"])
                for x in self.done:      # an output or a directory of outputs was removed
                    if x.startswith(e["path"] + "/"):
                        self.dirty.add(x)
                    if e["path"].endswith(".d") and x == e["path"][:-2] + ".o":
                        self.dirty.add(x)

    def bad(self, prop, what, detail):
        self.rep.add(prop, what, detail)
        self.rep.add("C12", what, detail)

    # ---- judgement
    def after(self, op, res, infos, faults):
        rep, k, fs = self.rep, self.k, self.fs
        ev = k.events[res.first:]
        if res.why in ("deadlock", "no-progress"):
            rep.add("C03", "the build never returns", res.why, key="hang")
            rep.add("C12", "the build never returns", res.why, key="hang")
            return
        interrupted = any(e["ev"] == "interrupt" for e in ev)
        if any(e["ev"] == "interrupt_delivered" for e in ev):
            rep.probe("interrupted")
            if res.code == 0 and not any(i.get("result") is False or i.get("exc") for i in infos):
                rep.add("C17", "exit status 0 after an interrupt")
        for e in ev:
            if e["ev"] == "cmd_no_dir":
                self.bad("C13", "directory of the output does not exist", e["out"])
        disturbed = interrupted or res.why is not None or bool(faults.fired) or any(e["ev"] in ("fs_fault", "stdout_fault") for e in ev)
        if not self.declared and not disturbed:
            self.bad("C05", "the script fails although nothing is wrong", "%s %s" % (res.exc, res.text(1)[-150:]))
        for info in infos:
            self.judge(op, res, info, infos, disturbed)
        if disturbed:
            self.bad_before = True
            self.dirty |= set(self.done) | set(self.cmds)
        if res.out is not None and res.why is None and not interrupted:
            self.check_relay(res, ev, None)

    def gen_files(self, t):
        """Generated files of a target, as far as commands for them have been seen; and the rules' files."""
        pr = self.project
        outs = set()
        for key in pr.tree(t):
            p = pr.products[key]
            if p["target"]:
                outs.add(p["target"])
            outs |= {x for x in p["explicit"] + p["sources"] if x in pr.made}
            for s in p["sources"]:
                for o, c in self.cmds.items():
                    if c["kind"] in ("obj", "dep") and c["ins"][:1] == [s] and o.startswith(p["builddir"] + "/"):
                        outs.add(o)
        return outs

    def judge(self, op, res, info, infos, disturbed):
        rep, k, fs, pr = self.rep, self.k, self.fs, self.project
        o = info["op"]
        last = info is infos[-1]
        ended = info.get("ended", False)
        bf, bd, bm = info["before"]
        af, ad, am = info.get("after") or self.snapshot()
        events = k.events[info["first"]:info.get("last", len(k.events))]
        failed = [e for e in events if e["ev"] == "cmd_end" and e["rc"] != 0]
        foreign = {e["path"] for e in events if e["ev"] == "foreign_mkdir"}
        # -- footprint
        mine = self.gen_files(o["t"])
        for p in sorted(set(bf) | set(af)):
            if (bf.get(p) != af.get(p) or bm.get(p) != am.get(p)) and p not in mine:
                what = "removed" if p not in af else "created" if p not in bf else "modified"
                self.bad("C10", "a file that is not an output of the target was %s" % what, p)
        for d in sorted(bd ^ ad):
            if (d in bd or not any(x.startswith(d + "/") for x in mine | set(self.cmds))) and not any(f == d or f.startswith(d + "/") for f in foreign):
                if d in bd or not any(d == q["builddir"] or q["builddir"].startswith(d + "/") or d.startswith(q["builddir"] + "/") for q in pr.products.values()):
                    self.bad("C10", "a directory was %s" % ("removed" if d in bd else "created"), d)
        if o["op"] == "clean":
            if ended and res.why is None and not disturbed:
                left = sorted(p for p in mine if p in af)
                told = info.get("exc") or (bool(res.code) if o["via"] == "cli" and last else info.get("result") is False)
                if info.get("exc") and not failed:
                    self.bad("C10", "clean fails although nothing is wrong", "%r" % (info["exc"],))
                elif left and not told:
                    self.bad("C10", "clean left a generated file behind", left[0])
                if any(p in bf for p in mine):
                    rep.probe("clean_removed_files")
            return
        # -- outcome
        if o["via"] == "cli":
            ok = not info.get("exc") and not res.code if last else not info.get("exc")
            if isinstance(info.get("exc"), SystemExit) and not info["exc"].code:
                ok = True
        else:
            ok = not info.get("exc") and info.get("result") is not False
        if not ended or res.why is not None:
            rep.probe("builds_cut_short")
            return
        errors = self.expected_errors(o["t"])
        if ok:
            rep.probe("builds_success")
            if failed:
                self.bad("C05", "success reported although a command failed", failed[0]["cmd"][:100])
            if not info["starts"]:
                rep.probe("null_builds")
            elif len(info["starts"]) < len(self.cmds):
                rep.probe("partial_rebuilds")
            for what, x, torn in info["wrong"]:
                if torn is None:
                    rep.add("C02", what, x)
                    continue
                if torn:
                    rep.known.append(("C09", "torn-output-after-kill", torn))
                    continue
                for w in ["C12", "C07"] + (["C09"] if self.bad_before else []):
                    rep.add(w, what, x)
            for x, n in info["verified"].items():
                rep.probe(x, n)
        else:
            rep.probe("builds_failed")
            if not failed and not disturbed:
                if not errors:
                    self.bad("C05", "the build fails although nothing is wrong", "%r %s" % (info.get("exc") or res.exc, res.text(1)[-150:]))
                else:
                    rep.probe("failed_for_missing_header")
            elif not disturbed and not errors and all(not e["fault"] for e in failed):
                e = failed[0]
                self.bad("C05", "a command fails although nothing is wrong", "%s: %s" % (e["cmd"][:100], (e["err"] or e["out"])[-100:]))
            if failed:
                rep.probe("command_failures")

    def expected_errors(self, t):
        pr = self.project
        errs = []
        for key in pr.tree(t):
            p = pr.products[key]
            for s in p["sources"]:
                try:
                    pr.closure(s, p, self.defs(p, s))
                except (MissingHeader, OSError) as e:
                    errs.append("%s: %s" % (s, e))
            for x in p["explicit"] + p["moc"] + p["ui"]:
                if not pr.exists(x):
                    errs.append(x)
            for x in p["moc"]:
                try:
                    pr.closure(x, p, self.defs(p, x + ".cxx"))
                except (MissingHeader, OSError) as e:
                    errs.append("%s: %s" % (x, e))
        return errs

    def defs(self, p, s):
        for o, c in sorted(self.cmds.items()):
            if c["kind"] == "obj" and c["ins"][:1] == [s] and o.startswith(p["builddir"] + "/"):
                return defs_of(c)
        out = set()
        for m in [p["decl"]] + self.project.included(p["decl"]):
            out |= {x.split("=")[0] for x in m.get("defines", [])}
            for f in ("cxx_flags", "optimize") if s.rsplit(".", 1)[-1] in CXX else ("cc_flags", "optimize"):
                out |= {x[2:].split("=")[0] for x in m.get(f, "").split() if x.startswith("-D")}
        return out

    def contents(self, t, out, probes):
        """What differs now from a clean build."""
        fs, pr = self.fs, self.project

        def wrong(what, detail, paths=()):
            out.append((what, detail, sorted(self.torn & set(paths))))

        def older(what, detail):
            out.append((what, detail, None))

        def probe(x, n=1):
            probes[x] = probes.get(x, 0) + n
        for key in pr.tree(t):
            p = pr.products[key]
            for kind, xs in (("moc", p["moc"]), ("uic", p["ui"])):
                for x in xs:
                    found = [o for o, c in self.cmds.items() if c["kind"] == kind and c["ins"][:1] == [x] and o.startswith(p["builddir"] + "/")]
                    if not found:
                        wrong("a header or form was never handed to %s" % kind, x)
                        return
                    probe("qt_files_verified")
            objs = {}           # object -> content of a clean build
            for s in p["sources"]:
                found = [x for x, c in self.cmds.items() if c["kind"] == "obj" and c["ins"][:1] == [s] and x.startswith(p["builddir"] + "/")]
                if not found:
                    wrong("a source was never compiled", s)
                    return
                for x in found:
                    c = self.cmds[x]
                    lang = "c++" if s.rsplit(".", 1)[-1] in CXX else "c"
                    if p["decl"]["k"] == "hand":
                        d = p["decl"]
                        need = {"-D" + y for y in d.get("defines", [])} | set((d.get("cxx_flags" if lang == "c++" else "cc_flags", "") + " " + d.get("optimize", "")).split())
                        if {y.replace("-D ", "-D") for y in c["flags"]} != need:
                            wrong("an object is made with other options than declared", "%s: %r" % (x, c["flags"]))
                            return
                    try:
                        order = pr.closure(s, p, defs_of(c))
                    except (MissingHeader, OSError) as e:
                        wrong("the build succeeds although a header is missing", "%s: %s" % (s, e))
                        return
                    objs[x] = obj_content(lang, c["flags"], order)
            for x in sorted(objs):
                have = fs._read(x) if fs._exists(x) else None
                if have != objs[x]:
                    wrong("an object is not what a clean build would make of the current sources and headers" if have is not None else "an object does not exist", x,
                          [x] + [o for o, c in self.cmds.items() if c["kind"] == "dep" and stem(o) == stem(x)] + p["explicit"] + [o for o in p["sources"] if o in pr.made])
                    return
            for x in sorted(objs):
                for e in p["explicit"]:
                    if fs._exists(e) and self.mtime(e) > self.mtime(x):
                        older("an object was not made anew although a file it was declared to depend on has changed", "%s: %s" % (x, e))
                        return
            probe("objects_verified", len(objs))
            if p["kind"] == "objects":
                continue
            c = self.cmds.get(p["target"])
            if c is None:
                wrong("a program or library was never linked", p["target"])
                return
            want = []

            def collect(q):
                want.extend(q["sources"])
                for s in q["subs"]:
                    sub = pr.products[s]
                    if sub["target"]:
                        want.append(sub["target"])
                    else:
                        collect(sub)
                want.extend(q["extra"])
            collect(p)
            got = [self.cmds[i]["ins"][0] if i in self.cmds and self.cmds[i]["kind"] == "obj" else i for i in c["ins"]]
            if sorted(got) != sorted(want):
                wrong("a program or library is linked from other parts than declared", "%s: %r not %r" % (p["target"], sorted(got), sorted(want)))
                return
            if p["kind"] == "image" and c["opts"] != ["-O " + p["decl"]["format"]] + ["-j " + x for x in p["decl"]["sections"]] or p["kind"] == "image" and c["tool"] != p["decl"]["prefix"] + "objcopy":
                wrong("an image is made with other options than declared", "%s: %s %r" % (p["target"], c["tool"], c["opts"]))
                return
            kind = "OBJCOPY" if p["kind"] == "image" else "AR" if p["decl"].get("type", p["kind"]) in ("static", "static_library") else "SHARED" if p["decl"].get("type", p["kind"]) in ("shared", "shared_library") else "EXE"
            data = [fs._read(i) if fs._exists(i) else b"" for i in c["ins"]]
            have = fs._read(p["target"]) if fs._exists(p["target"]) else None
            if have != link_content(kind, data):
                wrong("a program or library is not what a clean build would make" if have is not None else "a program or library does not exist", p["target"], [p["target"]])
                return
            probe("programs_verified")
        for key in pr.tree(t):
            for x in pr.products[key]["explicit"] + pr.products[key]["sources"]:
                if x in pr.made and (not fs._exists(x) or fs._read(x) != pr.read(x)):
                    wrong("a generated header or source is not up to date", x, [x])
                    return


def ui_name(x):
    """The name under which a form's header is included."""
    d, b = posixpath.split(posixpath.relpath(x, W))
    return posixpath.join(d, "ui_%s.h" % b.rsplit(".", 1)[0])


def defs_of(c):
    return {f[2:].strip().split("=")[0] for f in c["flags"] if f.startswith("-D")}


def stem(p):
    return p.rsplit(".", 1)[0]


def run(scn, chooser):
    r = Run(scn, chooser)
    rep, k, fs = r.rep, r.k, r.fs
    try:
        for d in list(scn.get("dirs", [])) + list(scn.get("roots", [])):
            fs._mkdirs(d)
        init = dict(scn["init"])
        for s in sorted({d["script"] for d in scn["decls"] if d.get("script")}):
            init[absol(s)] = script_text([d for d in scn["decls"] if d.get("script") == s])
        for p in sorted(init):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, init[p])
        r.advance_clock()
        for op in scn["history"]:
            if op["op"] == "proc":
                r.process(op)
                if k.unsupported:
                    rep.skip(k.unsupported)
                    break
                if any(v.key == "hang" for v in rep.violations):
                    break
            elif op["op"] == "delart":
                arts = sorted(x for x in r.cmds if fs._exists(x))
                if arts:
                    r.user({"op": "del", "p": arts[op["n"] % len(arts)]})
            else:
                r.user(op)
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = k.stats.get("commands", 0) > 0 and bool(k.stats.get("switches", 0) or rep.probes.get("parallel_commands") or rep.probes.get("partial_rebuilds"))
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
def text(path, ver, incs, cond=()):
    out = ["// %s v%d" % (path, ver)]
    out += ['#include "%s"' % i for i in incs]
    for name, i in cond:
        out += ["#ifdef %s" % name, '#include "%s"' % i, "#endif"]
    return "\n".join(out) + "\n"


HNAMES = ["h%d.h", "h%d.hpp", "sub/h%d.h", "h+%d.h", "c++/h%d.hpp", "a@b/h%d.h", "h-%d.h", "h\u00e4%d.h", "h~%d", "d.ir/h%d.inc", "h %d.h", "h%d.h",
          "p%d/common.h", "p%d/common.h", "p%d/q/common.h", "h#%d.h", "h$%d.h"]


def plainly(n):
    """Can a command name it without quotes?"""
    return not any(c in n for c in " #$")


def gen(rng, prof):
    # ---- headers: {name: path}; an include of `name` works from everywhere
    incdirs = ["/w/inc", "/w/lib/inc", "/w/inc/deep", "/ext/inc"][:rng.choice([1, 2, 2, 3, 4])]
    heads = {}
    for i in range(rng.choice([0, 1, 2, 3, 4, 6])):
        n = rng.choice(HNAMES) % i
        heads[n] = rng.choice(incdirs) + "/" + n
    names = sorted(heads)
    inits, conds, includes = {}, {}, {}
    macros = ["FAST", "QT", "DEBUG"]

    def pick(pool, most):
        return rng.sample(pool, min(len(pool), rng.randrange(most + 1)))
    for i, n in enumerate(names):
        includes[heads[n]] = pick(names[i + 1:] if rng.random() < 0.85 else names, 2)
        conds[heads[n]] = [(rng.choice(macros), x) for x in pick(names[i + 1:], 1)] if rng.random() < 0.2 else []
    # ---- modules and products
    decls = []
    srcs = []

    def source(dirs, exts=("c", "cpp", "cxx", "cc", "S")):
        d = rng.choice(dirs)
        p = "%s/%s%d.%s" % (d, rng.choice(["m", "m", "m", "x+", "a.b"]), len(srcs), rng.choice(exts))
        if srcs and rng.random() < 0.15:      # named like another one
            q = "%s/%s.%s" % (rng.choice([d, posixpath.dirname(srcs[-1])]) if posixpath.dirname(srcs[-1]) in dirs else d, stem(posixpath.basename(rng.choice(srcs))), rng.choice(exts))
            p = p if q in srcs else q
        srcs.append(p)
        includes[p] = pick(names, 3)
        conds[p] = [(rng.choice(macros), x) for x in pick(names, 1)] if rng.random() < 0.25 else []
        return p

    def rel(p, base=W):
        r = posixpath.relpath(p, base)
        return p if p.startswith("/ext") or rng.random() < 0.1 else ("./" + r if rng.random() < 0.1 else r)

    def incs(base=""):
        return [rel(x, posixpath.join(W, base)) for x in incdirs]

    def options(d):
        if rng.random() < 0.4:
            d["defines"] = rng.choice([["FAST"], ["QT=1"], ["FAST", "QT"]])
        if rng.random() < 0.3:
            d["cxx_flags"] = rng.choice(["-DDEBUG", "-DQT -Wall"])
        if rng.random() < 0.3:
            d["cc_flags"] = rng.choice(["-DDEBUG", "-Wall"])
        if rng.random() < 0.3:
            d["optimize"] = rng.choice(["-O2", "-O3 -DFAST", "-DDEBUG"])
    forms, mocs = [], set()

    def qt(d, own, base=""):
        if rng.random() < prof.get("qt", 0.15):
            for _ in range(rng.choice([1, 1, 2])):
                f = posixpath.join(W, base, rng.choice(["", "forms/", "src/ui+/"]) + "f%d.ui" % len(forms))
                forms.append(f)
                includes[f] = []
                d.setdefault("qt_ui", []).append(posixpath.relpath(f, posixpath.join(W, base)))
                for p in own:
                    if rng.random() < 0.6:
                        includes[p] = includes[p] + [ui_name(f)]
        if rng.random() < prof.get("qt", 0.15):
            for n in pick([n for n in names if plainly(n) and n not in mocs and heads[n].startswith(W + "/")], 2):
                mocs.add(n)
                d.setdefault("qt_moc", []).append(posixpath.relpath(heads[n], posixpath.join(W, base)))
    globs = {}
    mods = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
        m = {"k": "module", "name": "mod%d" % i}
        m["use"] = rng.choice(["mdepends", "mdepends", "include", "modules", "modules"])
        base = ""
        if rng.random() < 0.5:
            m["script"] = "lib/lib.g.py"
            base = "lib"
        own = [source(["/w/lib", "/w/lib/sub%d" % i]) for _ in range(rng.choice([0, 1, 1, 2]))]
        if m["use"] == "modules" and not own:
            own = [source(["/w/lib"])]
        if m["use"] == "include":
            while own:      # what it includes goes into submodules, too
                srcs.remove(own.pop())
        m["sources"] = [rel(p, W + "/" + base if base else W) for p in own]
        if rng.random() < 0.3 and m["sources"] and all(not x.startswith("/") for x in m["sources"]):
            m["srcdir"] = rng.choice([".", "../w" if not base else "../lib"])
        if rng.random() < 0.3:
            m["defines"] = [rng.choice(["FAST", "QT"])]
        m["incs"] = incs(base) if m["use"] == "modules" else []
        if m["use"] == "modules" and rng.random() < 0.4:
            m["type"] = "static_library"
            m["target"] = "build/libmod%d.a" % i
        if m["use"] != "include" and not m.get("srcdir"):
            qt(m, own, base)
        if m["use"] == "mdepends" and [x for x in mods if x["use"] == "mdepends"] and rng.random() < 0.5:
            m["mdepends"] = [rng.choice([x["name"] for x in mods if x["use"] == "mdepends"])]
        mods.append(m)
    decls += mods
    rules = []
    if rng.random() < 0.35:
        inits["/w/gen.in"] = text("/w/gen.in", 0, pick(names, 1))
        decls.append({"k": "rule", "out": "build/gen/gen0.h", "in": "gen.in"})
        rules.append("gen0.h")
    made = []
    if rng.random() < 0.3:
        for i in range(rng.choice([1, 1, 2])):
            p = "/w/made%d.in" % i
            includes[p] = pick(names, 2)
            decls.insert(rng.choice([0, len(decls)]), {"k": "rule", "out": "build/gen/made%d.%s" % (i, rng.choice(["c", "cpp"])), "in": "made%d.in" % i})
            made.append(p)
    later = [decls.pop() for _ in range(2) if decls and decls[-1]["k"] == "rule" and rng.random() < 0.3]
    confs = ["/w/conf/c%d.x" % i for i in range(3)] if rng.random() < 0.3 else []
    for p in confs:
        includes[p] = []
    prods = []
    for i in range(rng.choice([1, 1, 1, 2, 2, 3])):
        d = {"k": rng.choice(["app", "app", "app", "shared", "static", "objects"]), "name": "prod%d" % i}
        own = [source(["/w", "/w/src", "/w/src/sub", "/common", "/ext/src", "/w/common", "/w/ext/src"]) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        d["sources"] = [rel(p) for p in own]
        if rng.random() < 0.3:
            g = "/w/glob%d" % i
            for _ in range(rng.choice([1, 2])):
                source([g], exts=("c",) if i % 2 else ("cpp",))
            d["sources"].append(rel(g) + ("/*.c" if i % 2 else "/*.cpp"))
            globs[d["name"]] = (g, "c" if i % 2 else "cpp")
        d["incs"] = incs()
        options(d)
        if rng.random() < 0.5 or prods:
            d["builddir"] = rng.choice(["build", "out/%s" % d["name"], "b%d" % i])
        if prods and d.get("builddir", "build") in [q.get("builddir", "build") for q in prods]:
            d["builddir"] = "b%d" % i
        use = lambda u: [m["name"] for m in mods if m["use"] == u and rng.random() < 0.7]
        for f, u in (("mdepends", "mdepends"), ("include_modules", "include")):
            x = use(u)
            if x:
                d[f] = x
        if not prods:
            x = use("modules")
            if x:
                d["modules"] = x
        plain = [n for n in names if plainly(n)]
        if rng.random() < 0.25 and plain:
            d["local_headers"] = []
            for c in "xyz"[:rng.choice([1, 1, 2, 3])]:
                d["local_headers"].append(["loc%d/%s.h" % (i, c), rel(heads[rng.choice(plain)])])
                for p in own:
                    if rng.random() < 0.6:
                        includes[p] = includes[p] + ["loc%d/%s.h" % (i, c)]
        qt(d, own)
        for r in [r for r in decls + later if r["k"] == "rule" and r["out"].startswith("build/gen/made")]:
            if rng.random() < 0.5:
                d["sources"].insert(rng.randrange(len(d["sources"]) + 1), r["out"])
        if confs and rng.random() < 0.7:
            d["depends"] = rng.choice([["conf/*.x"], ["conf/c0.x"], ["gen.mk", "conf/*.x"], ["./conf/c1.x", "conf/c2.x"]])
            if "gen.mk" in d["depends"]:
                inits["/w/gen.mk"] = "x\n"
        if rules:
            d["incs"] = d["incs"] + ["build/gen"]
            d["depends"] = d.get("depends", []) + ["build/gen/gen0.h"]
            for p in own:
                if rng.random() < 0.5:
                    includes[p] = includes[p] + ["gen0.h"]
        libs = [q["name"] for q in prods if q["k"] in ("static", "shared")]
        if libs and d["k"] in ("app", "shared") and rng.random() < 0.7:
            d["objects"] = [rng.choice(libs)]
        prods.append(d)
    decls += prods + later
    targets = [d["name"] for d in prods]
    hands, beside = [], []
    if rng.random() < prof.get("hand", 0.25):
        d = {"k": "hand", "name": rng.choice(["hand0", "bin/hand0"]), "type": rng.choice(["app", "app", "shared", "static"]), "incs": ["."] + incs(), "builddir": "hb"}
        for i in range(rng.choice([1, 2, 3])):
            x = rng.choice(["/w/hand", "/w", "/ext/src"]) + "/y%d.%s" % (i, rng.choice(["c", "cpp", "cc", "S"]))
            hands.append(x)
            includes[x] = ["conf/c%d.x" % j for j in range(3) if rng.random() < 0.5] if confs else []
            if x.startswith("/w/") and rng.random() < 0.4:
                # a header of the same name beside it
                beside.append(stem(x) + ".h")
                includes[beside[-1]] = []
                includes[x].append(rel(beside[-1]))
        d["sources"] = [rel(x) for x in hands]
        if confs:
            d["depends"] = ["conf/c%d.x" % j for j in range(3)]
        if beside:
            d["depends"] = d.get("depends", []) + [rel(x) for x in beside]
            rng.shuffle(d["depends"])
            hands += beside
        options(d)
        libs = [q["name"] for q in prods if q["k"] in ("static", "shared")]
        decls.insert(rng.choice([0, len(decls)]), d)
        targets.append(d["name"])
    if rng.random() < prof.get("image", 0.2):
        for i in range(rng.choice([1, 1, 2])):
            of = rng.choice([t for t in targets if [d for d in decls if d.get("name") == t and d["k"] not in ("objects", "image")]] or [None])
            if of is not None:
                decls.insert(rng.choice([0, len(decls)]), {"k": "image", "name": rng.choice(["build/img%d.bin", "img%d.hex", "./out/img%d"]) % i, "of": of,
                                                           "format": rng.choice(["binary", "ihex"]), "sections": rng.sample([".text", ".data", ".rodata"], rng.choice([1, 2, 3])),
                                                           "prefix": rng.choice(["", "", "arm-none-eabi-"])})
                targets.append([d for d in decls if d["k"] == "image"][-1]["name"])
    targets = list(dict.fromkeys(targets + [d["name"] for d in decls if d["k"] == "image"]))
    if len(targets) > 1:
        decls.append({"k": "fileset", "name": "everything", "targets": list(targets)})
        targets.append("everything")
    for p in list(includes):
        inits[p] = text(p, 0, includes[p], conds.get(p, ()))
    scn = {"family": "cxx", "decls": decls, "init": inits, "dirs": [], "roots": [W, "/ext", "/common"], "cfg": gen_cfg(rng, prof),
           "durseed": rng.randrange(1000), "durstyle": rng.choice([0, 1, 2, 2])}
    # ---- history
    ver = [0]
    gone = {}

    def put(p):
        ver[0] += 1
        return {"op": "edit", "p": p, "c": text(p, ver[0], includes[p], conds.get(p, ()))}

    def edit():
        files = [heads[n] for n in names if n not in gone] + srcs + forms + made + confs + hands
        hs = [n for n in names if n not in gone]
        r = rng.random()
        if "/w/gen.in" in inits and rng.random() < 0.15:
            r = 0.99
        if gone and r < 0.3:
            n = rng.choice(sorted(gone))
            del gone[n]
            if rng.random() < 0.3:
                old = heads[n]
                heads[n] = rng.choice(incdirs) + "/" + n
                includes[heads[n]] = includes.get(old, [])
                conds[heads[n]] = conds.get(old, [])
            return [put(heads[n])]
        if r < 0.45:
            hp = [heads[n] for n in hs]
            return [put(rng.choice(hp if hp and rng.random() < 0.7 else files))]
        if r < 0.6:
            p = rng.choice([f for f in files if f not in forms + confs + hands])
            keep = [x for x in includes[p] if x not in names]
            includes[p] = keep + pick(hs, 3)
            conds[p] = [(rng.choice(macros), x) for x in pick(hs, 1)] if rng.random() < 0.2 else []
            return [put(p)]
        if r < 0.66:
            return [{"op": "touch", "p": rng.choice(files)}]
        if r < 0.74:      # a new header
            i = len(names)
            n = rng.choice(HNAMES) % i
            if n in heads:
                return []
            heads[n] = rng.choice(incdirs) + "/" + n
            names.append(n)
            includes[heads[n]] = pick(hs, 1)
            q = rng.choice([f for f in files if f not in forms + confs + hands])
            includes[q] = includes[q] + [n]
            return [put(heads[n]), put(q)]
        if r < 0.82 and hs:   # a header goes
            n = rng.choice(hs)
            if n in mocs and rng.random() < 0.8:
                return []
            out = [{"op": "del", "p": heads[n]}]
            if rng.random() < 0.7 and not any(heads[n] == absol(x[1]) for d in decls for x in d.get("local_headers", [])):
                for p in sorted(includes):
                    if p not in (heads[n],) and (n in includes[p] or any(n == x for _, x in conds.get(p, ()))) and (p in srcs or p in [heads[m] for m in hs]):
                        includes[p] = [x for x in includes[p] if x != n]
                        conds[p] = [c for c in conds.get(p, ()) if c[1] != n]
                        out.append(put(p))
                if rng.random() < 0.3:
                    out.append({"op": "rmdir", "p": posixpath.dirname(heads[n])} if not any(posixpath.dirname(heads[m]).startswith(posixpath.dirname(heads[n])) for m in hs if m != n) else out.pop())
            if rng.random() < 0.4:     # it moves
                heads[n] = rng.choice(incdirs) + "/" + n
                includes.setdefault(heads[n], [])
                out.append(put(heads[n]))
            else:
                gone[n] = 1
            return out
        if r < 0.88 and globs:
            g, ext = globs[rng.choice(sorted(globs))]
            p = "%s/new%d.%s" % (g, len(srcs), ext)
            srcs.append(p)
            includes[p] = pick(hs, 2)
            return [put(p)]
        if r < 0.95:
            return [{"op": "delart", "n": rng.randrange(100)}]
        if "/w/gen.in" not in inits or r < 0.97:
            return [{"op": "rmdir", "p": W + "/build"}]
        if r >= 0.97:
            ver[0] += 1
            return [{"op": "edit", "p": "/w/gen.in", "c": text("/w/gen.in", ver[0], pick(hs, 1))}]
        return []

    def one(lastop):
        t = rng.choice(targets + targets[-1:])
        via = rng.choice(["cli", "cli", "do", "invoke"]) if lastop else rng.choice(["do", "invoke"])
        o = {"op": "build", "t": t, "j": rng.choice([1, 2, 2, 3, 4, 8]), "via": via}
        if via == "cli":
            o["flags"] = [f for f in ("-t", "-d", "-q") if rng.random() < 0.1]
            if rng.random() < 0.4:
                o["deflt"] = True
        if rng.random() < prof.get("clean", 0.07):
            o["op"] = "clean"
        return o
    hist = []
    read = sorted(n for n in names if any(n in includes[p] for p in srcs))
    if read and rng.random() < prof.get("torn", 0):      # a dependency file that is lost in the middle of a life
        h = heads[rng.choice(read)]
        for i in range(4):
            p = {"op": "proc", "ops": [dict(one(True), op="build", t=targets[-1])]}
            if i == 1:
                p["crash"], p["crash_mode"] = ["empty", rng.choice([1, 1, 1, 2, 3]), 0], "group"
            hist.append(p)
            if i == 0 or i == 2:
                hist.append(put(h))
        scn["history"] = hist
        return scn
    nproc = rng.choice(prof.get("procs", [2, 2, 3, 4, 5]))
    for i in range(nproc):
        final = i == nproc - 1
        p = {"op": "proc", "ops": ([one(False)] if rng.random() < prof.get("session", 0.12) else []) + [one(True)]}
        faults(rng, prof, p, srcs, decls, final)
        hist.append(p)
        if not final:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                hist += edit()
    scn["history"] = hist
    return scn


def faults(rng, prof, p, srcs, decls, final):
    if not final and rng.random() < prof.get("fail", 0.25):
        f = {}
        keys = ["obj:" + s for s in srcs] * 2 + ["dep:" + s for s in srcs]
        keys += [k + ":" + absol(posixpath.join(script_dir({}, d), x)) for d in decls for k, f in (("moc", "qt_moc"), ("uic", "qt_ui")) for x in d.get(f, [])]
        keys += ["obj:" + absol(x) for d in decls if d["k"] == "hand" for x in d["sources"]] * 2 + ["image:" + absol(d["name"]) for d in decls if d["k"] == "image"]
        keys += ["link:" + absol(d["name"]) for d in decls if d["k"] in ("app", "shared")] + ["ar:" + absol(d["name"]) for d in decls if d["k"] == "static"]
        for x in rng.sample(keys, rng.choice([1, 1, 2]) if len(keys) > 1 else 1):
            f[x] = {"stage": rng.choice(["before", "trunc", "partial", "partial", "after"]), "rc": rng.choice([1, 2, 127])}
            if rng.random() < 0.25:
                f[x]["sig"] = rng.choice([9, 11, 15])
        p["fail"] = f
    if rng.random() < prof.get("noise", 0.1):
        p["noise"] = {"all": rng.choice([[1, 10, 0], [20, 60, 1], [900, 80, 0]])}
    if rng.random() < prof.get("foreign", 0.1):
        p["foreign"] = [rng.choice([1, 1, 2, 3])]
    if final:
        return
    if rng.random() < prof.get("interrupt", 0):
        p["interrupt"] = gen_trigger(rng)
        p["sigint_cmds"] = rng.choice(["die", "ignore"])
    elif rng.random() < prof.get("crash", 0):
        p["crash"] = gen_trigger(rng)
        p["crash_mode"] = rng.choice(["proc", "group"])
        if rng.random() < 0.4:      # the moment a compiler has just created the file of dependencies
            p["crash"], p["crash_mode"] = ["empty", rng.choice([1, 1, 2, 3, 4]), 0], "group"
    elif rng.random() < prof.get("fsfault", 0.05):
        op = rng.choice(["mkdir", "write", "spawn", "spawn", "cmd_write", "cmd_read", "open_r", "open_r"])
        if any(o["op"] == "clean" for o in p["ops"]):
            op = "cmd_unlink"
        p["fsfault"] = [{"op": op, "n": rng.choice([1, 1, 2, 3, 5]), "err": "EAGAIN" if op == "spawn" else rng.choice(["ENOSPC", "EIO", "EACCES"])}]
        if op == "open_r":
            p["fsfault"][0]["path"] = ".d"


def shrink(scn):
    n = len(scn["history"])
    for i in range(n - 1, -1, -1):
        s = _copy.deepcopy(scn)
        del s["history"][i]
        if any(o["op"] == "proc" for o in s["history"]):
            yield s
    for i, op in enumerate(scn["history"]):
        if op["op"] != "proc":
            continue
        for f in ("fail", "noise", "foreign", "fsfault", "interrupt", "crash"):
            if f in op:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        if len(op["ops"]) > 1:
            for j in range(len(op["ops"])):
                s = _copy.deepcopy(scn)
                del s["history"][i]["ops"][j]
                yield s
        for j, o in enumerate(op["ops"]):
            if o["j"] != 1:
                s = _copy.deepcopy(scn)
                s["history"][i]["ops"][j]["j"] = 1
                yield s
            if o["via"] == "cli" and o.get("flags"):
                s = _copy.deepcopy(scn)
                s["history"][i]["ops"][j]["flags"] = []
                yield s
    used = {o["t"] for op in scn["history"] if op["op"] == "proc" for o in op["ops"]}
    for i, d in enumerate(scn["decls"]):
        if d["k"] in ("app", "shared", "static", "objects") and d["name"] not in used and not any(
                d["name"] in e.get("objects", []) for e in scn["decls"]):
            s = _copy.deepcopy(scn)
            del s["decls"][i]
            for e in s["decls"]:
                if e["k"] == "fileset":
                    e["targets"] = [x for x in e["targets"] if x != d["name"]]
            if not any(e["k"] == "fileset" and not e["targets"] for e in s["decls"]):
                yield s
        if d["k"] == "fileset" and d["name"] not in used:
            s = _copy.deepcopy(scn)
            del s["decls"][i]
            yield s
        if d["k"] == "module":
            s = _copy.deepcopy(scn)
            del s["decls"][i]
            for e in s["decls"]:
                for f in ("mdepends", "include_modules", "modules"):
                    if d["name"] in e.get(f, []):
                        e[f] = [x for x in e[f] if x != d["name"]]
            yield s
        for f in ("defines", "cxx_flags", "cc_flags", "optimize", "qt_moc", "qt_ui", "local_headers", "objects", "srcdir", "script", "mdepends", "include_modules", "modules"):
            if d.get(f) and f not in ("srcdir", "script"):
                s = _copy.deepcopy(scn)
                del s["decls"][i][f]
                yield s
        if len(d.get("sources", [])) > 1:
            for j in range(len(d["sources"])):
                s = _copy.deepcopy(scn)
                del s["decls"][i]["sources"][j]
                yield s
    for p in sorted(scn["init"]):
        s = _copy.deepcopy(scn)
        del s["init"][p]
        yield s
    if scn.get("durstyle"):
        s = _copy.deepcopy(scn)
        s["durstyle"] = 0
        yield s
    if scn["cfg"].get("short_writes"):
        s = _copy.deepcopy(scn)
        del s["cfg"]["short_writes"]
        yield s
