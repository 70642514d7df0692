"""Scenario family "modules": libraries of modules with implementations, defaults and options in scripts of many directories, assembled and built in
the simulator; every command line of compiler, linker and archiver is compared with a model of how requests resolve and options combine."""
import copy as _copy
import json
import posixpath
import re

from .builds import gen_cfg
from .common import Faults, Report
from .kernel import SimKilled
from .proc import Sim, event_digest
from .shell import cc_args, parse, tool_name

W = "/w"
HOME = "/home/user"
RULE = "a command built from the options of several modules ran, or a request was refused"
REAL = ["licant/* (imported from the working tree, unmodified): modules, cxx_modules, cxx_make, scripter, core, make, solver, cli, util",
        "CPython 3.12 exec, glob, argparse, asyncio, threading, subprocess on top of the seams"]
STUB = ["compilers, linker, archiver, moc, uic (simulated)", "shell (simulated)", "file system (in-memory, with faults)", "thread scheduling, clock", "SIGINT", "standard output (recorded)"]
ASSUME = ["no two assemblies make the same file from different options; file names of objects are not judged beyond their directory",
          "include_modules do not form a cycle; options of implementations that are only included are of the right kind"]

LISTS = ("libs", "libdirs", "defines")
PATHS = ("include_paths", "ldscripts", "local_headers")
OWN = ("objects", "sources", "qt_moc", "qt_ui")
FLAGS = ("cxx_flags", "cc_flags", "ld_flags")
INHERIT = ("target", "cxxstd", "ccstd", "builddir", "toolchain", "optimize", "debug")
TYPES = {"srcdir": str, "depends": list, "objects": list, "sources": list, "qt_moc": list, "qt_ui": list, "libs": list, "libdirs": list, "target": str, "include_paths": list,
         "cxxstd": str, "ccstd": str, "cxx_flags": str, "cc_flags": str, "ld_flags": str, "modules": list, "type": str, "builddir": str, "toolchain": "toolchain",
         "optimize": str, "include_modules": list, "defines": list, "ldscripts": list, "local_headers": list, "mdepends": list, "debug": str}
CXX, CC = ("cpp", "cxx", "cc"), ("c", "s", "S", "asm")
KINDS = {"app": "application", "shared": "shared_library", "static": "static_library", "objects": "objects"}


class Refused(Exception):
    pass


class Vague(Exception):
    """Declarations whose meaning is not judged."""


def absol(p, cwd=W):
    return posixpath.normpath(posixpath.join(cwd, p))


def home(p):
    return HOME + p[1:] if p == "~" or p.startswith("~/") else p


# ------------------------------------------------------------------------------------------------------------------- model
class Model:
    """What the declarations mean. Lists hold (value, strict): the order of what comes from mdepends is free."""

    def __init__(self, scn, listing, cwd):
        self.scn, self.listing, self.cwd = scn, listing, cwd
        self.impls, self.defaults, self.none = {}, {}, {}
        self.products = {}         # name -> product
        self.named = {}            # name for the command line -> products
        self.error = None
        self.requests = 0

    def script(self, path):
        for d in self.scn["scripts"][path]:
            k = d["k"]
            if k == "exec":
                self.script(absol(posixpath.join(posixpath.dirname(path), d["path"])))
            elif k == "module":
                self.impls.setdefault(d["name"], {})[d.get("impl") or "__default__"] = dict(d, dir=posixpath.dirname(path))
                if d.get("default") or not d.get("impl"):
                    self.defaults[d["name"]] = d.get("impl") or "__default__"
            elif k == "defimpl":
                self.defaults[d["name"]] = d["impl"]
            elif k == "both":
                for kind, t in (("static", d["static"]), ("shared", d["shared"])):
                    self.assembly(dict(d, k=kind, name=t), posixpath.dirname(path))
                self.named[d["name"]] = [self.products[d["static"]], self.products[d["shared"]]]
            else:
                self.assembly(d, posixpath.dirname(path))
                self.named[d.get("target") or d["name"]] = [self.products[d["name"]]]

    def assembly(self, d, dir):
        name = d["name"]
        opts = dict(d.get("opts", {}))
        mod = name
        if d["k"] != "objects":
            mod = name + "__module"
            opts["target"] = d.get("target") or name
        opts["type"] = KINDS[d["k"]]
        self.impls.setdefault(mod, {})["__default__"] = {"name": mod, "opts": opts, "dir": dir}
        self.defaults[mod] = "__default__"
        base = {"toolchain": "default", "cxxstd": {"c++17"}, "ccstd": {"c11"}, "builddir": "build", "target": "target", "optimize": "", "debug": "-g"}
        for f in LISTS + PATHS + FLAGS:
            base[f] = []
        self.products[name] = self.unit(mod, None, base, [])

    def get(self, name, impl=None):
        if name not in self.impls:
            raise Refused("missing")
        if impl is None:
            if name not in self.defaults:
                raise Refused("nodefault")
            impl = self.defaults[name]
        if impl == "__none__" and impl not in self.impls[name]:
            self.none.setdefault(name, 1)
            return {"name": name, "opts": {}, "dir": None}
        if impl not in self.impls[name]:
            raise Refused("noimpl")
        self.requests += 1
        return self.impls[name][impl]

    def collect(self, mod):
        """[(name, implementation)] mdepends ask for: explicit requests at once and with all they ask for, others afterwards in turn."""
        got, queue, active = {}, [], []

        def ask(m):
            for r in m["opts"].get("mdepends", []):
                if isinstance(r, str):
                    if r not in got:
                        queue.append(r)
                    continue
                nm = self.get(r[0], r[1])
                if r[0] in got:
                    if got[r[0]][0] != r[1]:
                        raise Refused("conflict")
                    continue
                got[r[0]] = (r[1], nm)
                ask(nm)
        ask(mod)
        while queue:
            n = queue.pop(0)
            if n not in got:
                m = self.get(n)
                got[n] = (self.defaults[n], m)
                ask(m)
        return got

    def path(self, m, p, src=False):
        return absol(posixpath.join(m["dir"], m["opts"].get("srcdir", "") if src else "", home(p)), self.cwd)

    def glob(self, a):
        if "*" not in a:
            return [a]
        dn, pat = posixpath.split(a)
        rx = re.compile(re.escape(pat).replace(r"\*", ".*") + r"\Z")
        return sorted(p for p in self.listing if posixpath.dirname(p) == dn and rx.match(posixpath.basename(p)) and not posixpath.basename(p).startswith("."))

    def own(self, f, m, strict):
        out = []
        for p in m["opts"].get(f, []):
            g = self.glob(self.path(m, p, True)) if f != "objects" else [self.path(m, p, True)]
            out += [(x, strict and "*" not in p) for x in g]
        return out

    def value(self, f, m, strict):
        v = m["opts"].get(f)
        if v is None:
            return []
        if f in LISTS:
            return [(x, strict) for x in v]
        if f in FLAGS:
            return [(x, strict) for x in v.split()]
        if f == "local_headers":
            return [((a, absol(posixpath.join(m["dir"], b), self.cwd)), strict) for a, b in v]
        return [(self.path(m, x), strict) for x in v]

    def check(self, m):
        for f, v in m["opts"].items():
            t = TYPES.get(f)
            if t is None or t != "toolchain" and type(v) is not t or t == "toolchain" and not isinstance(v, str):
                raise Refused("option")

    def unit(self, name, impl, base, above):
        m = self.get(name, impl)
        self.check(m)
        o = m["opts"]
        u = {"name": name}
        for f in LISTS + PATHS + FLAGS:
            u[f] = base[f] + self.value(f, m, True)
        for f in INHERIT:
            u[f] = ({o[f]} if f in ("cxxstd", "ccstd") else o[f]) if f in o else base[f]
        for f in OWN:
            u[f] = self.own(f, m, True)
        u["type"] = o.get("type", "objects")
        subs = [tuple(x) for x in o.get("modules", [])]

        def include(i, strict):
            try:
                self.check(i)
            except Refused:
                raise Vague("an included module with an option of the wrong kind")
            for f in LISTS + PATHS + FLAGS:
                u[f] = u[f] + self.value(f, i, strict)
            for f in OWN:
                u[f] = u[f] + self.own(f, i, strict)
            subs.extend(tuple(x) for x in i["opts"].get("modules", []))

        def walk(reqs):
            for r in reqs:
                i = self.get(r, None) if isinstance(r, str) else self.get(r[0], r[1])
                include(i, True)
                for f in ("cxxstd", "ccstd"):
                    if f in i["opts"]:
                        u[f] = {i["opts"][f]}
                walk(i["opts"].get("include_modules", []))
        walk(o.get("include_modules", []))
        got = self.collect(m)
        for f in ("cxxstd", "ccstd"):
            said = {i["opts"][f] for _, i in got.values() if f in i["opts"]}
            if said:
                u[f] = said
        for _, i in got.values():
            include(i, False)
        u["depends"] = [absol(x, self.cwd) for x in o.get("depends", [])]
        u["builddir"] = absol(u["builddir"], self.cwd)
        u["subs"] = [self.unit(n, i, u, above + [name]) for n, i in subs]
        for s, _ in u["sources"]:
            if s.rsplit(".", 1)[-1] not in CXX + CC:
                raise Refused("extension")
        if u["type"] not in KINDS.values():
            raise Refused("type")
        u["target"] = absol(u["target"], self.cwd)
        return u


def units(u):
    yield u
    for s in u["subs"]:
        yield from units(s)


def objects_of(u):
    """What ends up in the product: ("obj", source, builddir) | ("file", path)."""
    out = [(("obj", s, u["builddir"]), st) for s, st in u["sources"]] + [(("moc", s, u["builddir"]), st) for s, st in u["qt_moc"]]
    out += [(("file", s), st) for s, st in u["objects"]]
    for s in u["subs"]:
        if s["type"] == "objects":
            out += objects_of(s)
        else:
            out.append((("file", s["target"]), True))
    return out


def firsts(pairs):
    """Distinct values, and the sequence of those whose order is fixed."""
    loose = {x for x, st in pairs if not st}
    allv = {x for x, _ in pairs}
    return allv, list(dict.fromkeys(x for x, _ in pairs if x not in loose))


def flat(u):
    return {f: u[f] for f in ("toolchain", "cxxstd", "ccstd", "optimize", "debug", "cxx_flags", "cc_flags", "defines", "include_paths", "local_headers", "builddir", "depends")}


def tools(tc, default="std"):
    if tc == "default":
        tc = default
    if tc == "std":
        return "c++", "cc", "ar"
    if tc == "clang":
        return "clang++", "clang", "ar"
    p = tc[3:]
    return p + "g++", p + "gcc", p + "ar"


# ------------------------------------------------------------------------------------------------------------------ scripts
def text_of(path, decls, cwd):
    out = ["import licant"]
    for d in decls:
        k = d["k"]
        if k == "exec":
            out.append("licant.execute(%r)" % d["path"])
            continue
        if k == "defimpl":
            out.append("licant.%s(%r, %r)" % (d.get("fn", "module_defimpl"), d["name"], d["impl"]))
            continue
        kw = ["%r" % d["name"]]
        if k == "both":
            kw += ["%r" % d["static"], "%r" % d["shared"]]
        fn = {"module": "licant.module", "app": "licant.cxx_application", "shared": "licant.cxx_shared_library", "static": "licant.cxx_static_library",
              "objects": "licant.cxx_objects", "both": "licant.cxx_static_and_shared"}[k]
        if d.get("fn") == "library":
            fn = "licant.cxx_library"
            kw.append("shared=%r" % (k == "shared"))
        if d.get("fn") == "implementation":
            fn = "licant.implementation"
            kw.append("%r" % d["impl"])
        elif d.get("impl"):
            kw.append("impl=%r" % d["impl"])
        if d.get("default"):
            kw.append("default=True")
        if d.get("target"):
            kw.append("target=%r" % d["target"])
        for f, v in sorted(d.get("opts", {}).items()):
            kw.append("%s=%s" % (f, literal(f, v)))
        out.append("%s(%s)" % (fn, ", ".join(kw)))
    return "\n".join(out) + "\n"


def literal(f, v):
    if f == "toolchain" and isinstance(v, str):
        return {"std": "licant.cxx_make.standart_toolchain()", "clang": "licant.clang_toolchain()", "gcc": "licant.gcc_toolchain()"}.get(v) or "licant.gcc_toolchain(%r)" % v[3:]
    if f == "modules" and isinstance(v, list):
        return "[%s]" % ", ".join("licant.submodule(%r%s)" % (n, ", %r" % i if i else "") for n, i in v)
    if f == "include_modules" and isinstance(v, list):
        return "[%s]" % ", ".join(repr(x) if isinstance(x, str) else repr((x[0], x[1])) if x[2] == "t" else "licant.submodule(%r, %r)" % (x[0], x[1]) for x in v)
    if f in ("mdepends", "local_headers") and isinstance(v, list):
        return "[%s]" % ", ".join(repr(x) if isinstance(x, str) else repr(tuple(x)) for x in v)
    return repr(v)


# ---------------------------------------------------------------------------------------------------------------------- run
class Run:
    def __init__(self, scn, chooser):
        self.scn = scn
        self.rep = Report()
        self.sim = Sim(chooser, dict(scn.get("cfg", {})))
        self.k, self.fs = self.sim.k, self.sim.fs
        self.k.cmd_plan = self.cmd_plan
        self.fails = {}

    def cmd_plan(self, proc):
        for s, f in self.fails.items():
            if s in proc.cmd:
                return {"fail": f}
        return {}

    def process(self, op):
        k, fs, rep, scn = self.k, self.fs, self.rep, self.scn
        cwd = scn["cwd"]
        self.fails = op.get("fail", {})
        k.triggers = []
        k.fault = faults = Faults(self.sim, op.get("fsfault"))
        if op.get("interrupt"):
            k.interrupt_at = k.ch.points + op["interrupt"]
        m = Model(scn, sorted(self.files()), cwd)
        error = None
        try:
            m.script(scn["top"])
        except Refused as e:
            error = str(e)
        done = []
        flags = [x for w in op["asks"] for x in w]
        self.default = "gcc" if "--gcc_toolchain" in flags else "clang" if "--clang_toolchain" in flags else "std"

        def body(L):
            text = open(op["argv0"]).read()
            exec(compile(text, op["argv0"], "exec"), {"__name__": "__main__"})
            for w in op["asks"]:
                print("@Q")
                L.ex(argv=list(w))
                done.append(w)
            print("@Q")
        res = self.sim.process(body, argv=[op["argv0"]], cwd=cwd)
        k.drain()
        k.fault = None
        text = res.text(1)
        k.out = None
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        ev = k.events[res.first:]
        for x in (error or "resolved",):
            rep.probe("end_" + x)
        if res.why in ("deadlock", "no-progress"):
            if error is not None:
                return          # parts of parts without end, too: nothing of it was decided
            rep.add("C31", "resolving never ends", res.why)
            return
        cmds = [e for e in ev if e["ev"] == "cmd_start"]
        cut = any(e["ev"] in ("interrupt", "fs_fault") for e in ev)
        tail = "%s %s" % (res.exc, text[-300:])
        if error is not None:
            prop = "C31" if error in ("missing", "nodefault", "noimpl", "conflict") else "C32"
            if cmds:
                rep.add(prop, "commands ran although a request cannot be met", "%s: %s" % (error, cmds[0]["cmd"]))
            elif res.code == 0:
                rep.add(prop, "success reported although a request cannot be met", error)
            return
        if not cmds and not done and res.code != 0 and not cut:
            rep.add("C31" if "LicantError" in text or "Unregist" in text or "missing module" in text or "Recursion" in tail else "C32",
                    "correct declarations are refused", tail)
            return
        bad = len(rep.violations)
        self.commands(m, cmds, cwd)
        if len(rep.violations) > bad:
            return
        if not cut and not self.fails:
            if res.code != 0:
                rep.add("C32", "a correct build fails", tail)
                return
            want = {w[-1] for w in op["asks"] if w[0] not in ("m", "cxxm")}
            for n in sorted(want):
                for p in m.named[n]:
                    self.complete(m, p)
        elif self.fails and not cut and any(e["ev"] == "cmd_end" and e["rc"] for e in ev) and res.code == 0:
            rep.add("C32", "success reported although a command failed", "")
        if not cut:
            parts = text.split("@Q\n")[1:]
            for i, w in enumerate(done):
                if w[0] in ("m", "cxxm"):
                    self.answer(m, w, parts[i])

    def files(self):
        return [p for p in self.scn["files"] if self.fs._exists(p)]

    # ---- command lines
    def commands(self, m, cmds, cwd):
        """Every command line against the unit it belongs to."""
        rep = self.rep
        by, links, mocs, uis, copies = {}, {}, {}, {}, {}
        for p in m.products.values():
            for u in units(p):
                for s, _ in u["sources"]:
                    by[u["builddir"], s] = u
                for s, _ in u["qt_moc"]:
                    by[u["builddir"], "moc:" + s] = u
                    mocs[u["builddir"], s] = u
                for s, _ in u["qt_ui"]:
                    uis[u["builddir"], s] = u
                if u["type"] != "objects":
                    links[u["target"]] = u
        self.made = getattr(self, "made", {})
        for e in cmds:
            try:
                argv = [c for _, pipe in parse(e["cmd"]) for c in pipe if c["argv"]]
            except Exception:
                continue
            for c in argv:
                a = c["argv"]
                n = tool_name(a[0])
                outs = e["outs"]
                if n in ("moc", "uic") and outs:
                    src = absol([x for x in a[1:] if not x.startswith("-")][0], cwd)
                    t = mocs if n == "moc" else uis
                    u = [x for (b, s), x in t.items() if s == src and outs[0].startswith(b + "/")]
                    if not u:
                        rep.add("C32", "a file no module names is processed", e["cmd"])
                        continue
                    self.made[outs[0]] = (n, src, u[0]["builddir"])
                    rep.probe(n)
                    continue
                if n not in ("c++", "cc", "g++", "gcc", "clang", "clang++", "ar"):
                    continue
                if n == "ar":
                    pos = [x for x in a[1:] if not x.startswith("-")]
                    pos = pos if a[1].startswith("-") else pos[1:]
                    out, ins, mode, rest = pos[0], pos[1:], "ar", []
                else:
                    ins, out, flags, incs, mode = cc_args(a)
                    rest = flags
                out = absol(out, cwd) if out else (outs[0] if outs else None)
                if mode in ("obj", "dep"):
                    src = absol(ins[0], cwd) if ins else None
                    key = src
                    if src in self.made and self.made[src][0] == "moc":
                        key = "moc:" + self.made[src][1]
                    c2 = [u for (b, s), u in by.items() if s == key and out and out.startswith(b + "/")]
                    if not c2:
                        rep.add("C32", "a source is compiled that no module of any assembly names, or outside its build directory", e["cmd"])
                        continue
                    if mode == "obj":
                        self.made[out] = ("moc" if key.startswith("moc:") else "obj", key[4:] if key.startswith("moc:") else src, c2[0]["builddir"])
                    if not any(self.compile(u, a[0], src, key, rest, incs, cwd) is None for u in c2):
                        rep.add("C32", "a source is compiled with other options than its modules declare", "%s %s" % (self.compile(c2[0], a[0], src, key, rest, incs, cwd), e["cmd"]))
                    rep.probe("compiled")
                else:
                    u = links.get(out)
                    if u is None:
                        rep.add("C32", "something is linked that no assembly declares", e["cmd"])
                        continue
                    why = self.link(u, a, mode, ins, rest, cwd)
                    if why:
                        rep.add("C32", "a product is linked from other things than its modules declare", "%s %s" % (why, e["cmd"]))
                    rep.probe("linked_" + u["type"])

    @staticmethod
    def differ(what, pairs, got, ignore=None):
        """None, or how a list of words departs from what was declared."""
        allv, order = firsts(pairs)
        got = [x for x in got if not (ignore and ignore(x))]
        if set(got) != allv:
            return "%s: missing %s, unexpected %s" % (what, sorted(map(str, allv - set(got))), sorted(map(str, set(got) - allv)))
        g = list(dict.fromkeys(x for x in got if x in set(order)))
        if g != order:
            return "%s: order %s, not %s" % (what, g, order)
        return None

    def compile(self, u, prog, src, key, flags, incs, cwd):
        cxx, cc, _ = tools(u["toolchain"], self.default)
        lang = "cxx" if key.startswith("moc:") or src.rsplit(".", 1)[-1] in CXX else "cc"
        if prog != (cxx if lang == "cxx" else cc):
            return "compiler %s" % prog
        lh = u["builddir"] + "/__LOCAL_HEADERS__"
        ui = u["builddir"] + "/ui"
        have = [absol(x, cwd) for x in incs]
        why = self.differ("include paths", u["include_paths"], have, lambda x: posixpath.basename(x) in ("__LOCAL_HEADERS__", "ui"))
        if why:
            return why
        if u["local_headers"] and lh not in have:
            return "local headers are not in the include paths"
        if u["qt_ui"] and ui not in have:
            return "headers made from forms are not in the include paths"
        defs = [f[2:].strip() for f in flags if f.startswith("-D")]
        why = self.differ("defines", u["defines"], defs)
        if why:
            return why
        rest = [f for f in flags if not f.startswith("-D")]
        std = [f for f in rest if f.startswith("-std=")]
        if not any(std == ["-std=" + s] for s in u[lang + "std"]):
            return "standard %s, not %s" % (std, u[lang + "std"])
        extra = [x for x in (u["debug"] + " " + u["optimize"]).split()]
        f = u[lang + "_flags"]
        return self.differ("flags", f + [(x, False) for x in extra], [x for x in rest if x not in std])

    def link(self, u, argv, mode, ins, flags, cwd):
        cxx, _, ar = tools(u["toolchain"], self.default)
        want = {"application": ("link", cxx), "shared_library": ("link", cxx), "static_library": ("ar", ar)}[u["type"]]
        if (mode, argv[0]) != want:
            return "made by %s" % argv[0]
        got = []
        for x in ins:
            x = absol(x, cwd)
            got.append(self.made.get(x, ("file", x)))
        why = self.differ("inputs", objects_of(u), got)
        if why or mode == "ar":
            return why
        if ("--shared" in flags) != (u["type"] == "shared_library"):
            return "kind of product"
        for w, f in (("-l", "libs"), ("-L", "libdirs")):
            why = self.differ(f, [(home(x), st) for x, st in u[f]], [x[2:].strip() for x in flags if x.startswith(w)])
            if why:
                return why
        why = self.differ("linker scripts", u["ldscripts"], [absol(x[2:].strip(), cwd) for x in flags if x.startswith("-T")])
        if why:
            return why
        rest = [x for x in flags if x[:2] not in ("-l", "-L", "-T") and x != "--shared" and not x.startswith("-Wl,--start") and not x.startswith("-Wl,--end")]
        return self.differ("linker flags", u["ld_flags"], rest)

    def complete(self, m, p):
        """Everything the product needs is there."""
        fs, rep = self.fs, self.rep
        have = {}
        for x, v in self.made.items():
            if fs._exists(x):
                have[v] = x
        for u in units(p):
            for s, _ in u["sources"]:
                if ("obj", s, u["builddir"]) not in have:
                    rep.add("C32", "success reported but a source was never compiled", s)
            for s, _ in u["qt_moc"]:
                if ("moc", s, u["builddir"]) not in have:
                    rep.add("C32", "success reported but a header was never processed", s)
            if u["type"] != "objects" and not fs._exists(u["target"]):
                rep.add("C32", "success reported but there is no product", u["target"])
            if u["sources"]:
                for (a, b), _ in u["local_headers"]:
                    c = u["builddir"] + "/__LOCAL_HEADERS__/" + a
                    ok = [b2 for (a2, b2), _ in u["local_headers"] if a2 == a]
                    if not fs._exists(c) or fs._read(c) not in [fs._read(x) for x in ok]:
                        rep.add("C32", "success reported but a local header is not there", c)
        rep.probe("complete")

    # ---- questions
    def answer(self, m, w, text):
        rep = self.rep
        lines = [re.sub("\x1b\\[[0-9;]*m", "", l) for l in text.split("\n") if l and not l.startswith("trace")]
        if w[0] == "m":
            got = {}
            for l in lines:
                r = re.match(r"(\S+): (\[.*\])$", l)
                if r:
                    got[r.group(1)] = set(re.findall(r"'([^']*)'", r.group(2)))
            want = {n: set(i) for n, i in m.impls.items() if len(w) < 3 or re.search(w[2], n)}
            for n in set(got) | set(want):
                if got.get(n, set()) - {"__none__"} != want.get(n, set()) - {"__none__"}:
                    rep.add("C31", "the library of modules is not what was declared", "%s: %s, not %s" % (n, got.get(n), want.get(n)))
            rep.probe("listed")
            return
        try:
            want = {"%s:%s" % (n, i) for n, (i, _) in m.collect(m.get(w[2])).items()}
        except Refused:
            return
        got = [l for l in lines if re.match(r"[^\s:]+:\S+$", l)]
        if sorted(got) != sorted(want):
            rep.add("C31", "modules are resolved to other implementations than requested", "%s: %s, not %s" % (w[2], got, sorted(want)))
        rep.probe("collected")


def run(scn, chooser):
    r = Run(scn, chooser)
    k, fs, rep = r.k, r.fs, r.rep
    try:
        for p, c in sorted(scn["files"].items()):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, c)
        for p, d in sorted(scn["scripts"].items()):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, text_of(p, d, scn["cwd"]))
        for p in [scn["cwd"]] + scn.get("dirs", []):
            fs._mkdirs(p)
        for op in scn["history"]:
            k.now_ns += 5_000_000_000
            if op["op"] == "wipe":
                for x in sorted(r.made if hasattr(r, "made") else []):
                    if fs._exists(x):
                        fs._unlink(x)
            else:
                r.process(op)
            if k.unsupported:
                rep.skip(k.unsupported)
                break
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = any(x in rep.probes for x in ("compiled", "collected", "end_missing", "end_noimpl", "end_nodefault", "end_conflict", "end_option"))
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
def outputs_clash(m):
    """Two units that would make the same file in different ways."""
    seen = {}
    for name, p in m.products.items():
        for u in units(p):
            what = flat(u)
            for s, _ in u["sources"] + u["qt_moc"] + u["qt_ui"]:
                key = (u["builddir"], s)
                v = repr(sorted(what.items(), key=str))
                if seen.setdefault(key, v) != v:
                    return True
            if u["type"] != "objects":
                v = repr((objects_of(u), what, [u[f] for f in ("libs", "libdirs", "ldscripts", "ld_flags")]))
                if seen.setdefault(u["target"], v) != v:
                    return True
            for (a, b), _ in u["local_headers"]:
                if seen.setdefault((u["builddir"], "lh", a), b) != b:
                    return True
            ob = [x for x, _ in objects_of(u)]
            if u["type"] != "objects" and not ob:
                return True
            if any(x[0] == "file" and x[1] == u["target"] for x in ob):
                return True
            us = list(units(u))
            if len(us) > 30:
                return True
    return False


def gen(rng, prof):
    for _ in range(60):
        scn = attempt(rng, prof)
        m = Model(scn, sorted(scn["files"]), scn["cwd"])
        try:
            m.script(scn["top"])
        except Refused:
            if rng.random() < prof.get("wrong", 0.25):
                return finish(rng, prof, scn, m)
            continue
        except (RecursionError, Vague):
            continue
        if m.products and not outputs_clash(m):
            return finish(rng, prof, scn, m)
    return finish(rng, prof, {"family": "modules", "scripts": {"/w/make.py": [{"k": "app", "name": "app", "opts": {"sources": ["a.cpp"]}}]}, "files": {"/w/a.cpp": "int a;\n"},
                              "top": "/w/make.py", "cwd": "/w"}, None)


def finish(rng, prof, scn, m):
    names = [d.get("target") or d["name"] for p in sorted(scn["scripts"]) for d in scn["scripts"][p] if d["k"] in KINDS or d["k"] == "both"]
    mods = sorted({d["name"] for p in sorted(scn["scripts"]) for d in scn["scripts"][p] if d["k"] == "module"})
    hist = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        if i and rng.random() < 0.3:
            hist.append({"op": "wipe"})
        rel = posixpath.relpath(scn["top"], scn["cwd"])
        tc = rng.choice([["--gcc_toolchain"], ["--clang_toolchain"]]) if rng.random() < 0.15 else []
        op = {"op": "proc", "asks": [["-j%d" % rng.choice([1, 2, 4])] + tc + [rng.choice(names)]], "argv0": rng.choice([rel, rel, "./" + rel, scn["top"]])}
        r = rng.random()
        if m is not None and r < 0.25:
            t = rng.choice(sorted(m.impls))
            try:
                m.collect(m.get(t))
                op["asks"] = [["cxxm", "collect_modules", t]]
            except Refused:
                pass
        elif r < 0.32:
            op["asks"] = [rng.choice([["m", "list"], ["m", "list", "m"], ["m", "list", rng.choice(mods or ["x"])]])]
        if rng.random() < prof.get("interrupt", 0.05):
            op["interrupt"] = rng.choice([rng.randrange(1, 60), rng.randrange(1, 500)])
        elif rng.random() < prof.get("fsfault", 0.05):
            op["fsfault"] = [{"op": rng.choice(["read", "open_r"]), "n": 1, "err": "EIO", "path": posixpath.basename(rng.choice(sorted(scn["scripts"])))}]
        elif rng.random() < prof.get("fail", 0.08):
            src = [posixpath.basename(p) for p in sorted(scn["files"]) if p.rsplit(".", 1)[-1] in CXX + CC]
            if src:
                op["fail"] = {rng.choice(src): {"stage": rng.choice(["before", "after"]), "rc": 1}}
        hist.append(op)
    scn["history"] = hist
    scn["cfg"] = gen_cfg(rng, prof)
    return scn


DIRS = ["/w", "/w/lib", "/w/lib/deep", "/w/o", "/ext/m"]


def attempt(rng, prof):
    cwd = rng.choice(["/w", "/w", "/w", "/w/lib", "/home/user"])
    top = rng.choice([cwd, cwd, "/w", "/w/lib"]) + "/make.py"
    scripts = {top: []}
    paths = [top]
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        p = "%s/s%d.g.py" % (rng.choice(DIRS), i)
        paths.append(p)
        scripts[p] = []
    files, dirs = {}, set()
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    names = ["m%d" % i for i in range(n)]
    impls = {}
    for x in names:
        impls[x] = [None] if rng.random() < 0.5 else ["a", "b", "c"][:rng.choice([1, 2, 3])]
        if impls[x] != [None] and rng.random() < 0.15:
            impls[x].insert(rng.choice([0, 1]), None)       # one without a name among those with
    usual = {x: rng.choice(impls[x]) or "__default__" for x in names}

    def request(x, kind):
        """A request for a module, explicit or not."""
        if rng.random() < prof.get("odd", 0.015):
            x = "nowhere"
            impls.setdefault(x, [None])
            usual.setdefault(x, "a")
        if rng.random() < 0.5 and kind != "sub":
            return x
        i = usual[x]
        if rng.random() < prof.get("odd", 0.06):
            i = rng.choice(["a", "b", "__none__", "zz", "__default__"])
        return [x, i, "t" if rng.random() < 0.5 else "s"] if kind == "inc" else [x, i]

    def options(tag, script, later, assembly):
        """A random set of options for the implementation `tag` declared in `script`."""
        dn = posixpath.dirname(script)
        o = {}
        srcdir = ""
        if rng.random() < 0.3:
            srcdir = o["srcdir"] = rng.choice(["src", "./s/t", "../up", "/ext/abs", "src"])
        base = posixpath.normpath(posixpath.join(dn, srcdir))
        dirs.add(base)

        def mk(rel, text, src=True):
            a = posixpath.normpath(posixpath.join(base if src else dn, home(rel)))
            files[a] = text
            return rel
        if rng.random() < (0.9 if assembly else 0.5):
            o["sources"] = []
            for i in range(rng.choice([1, 1, 2, 3])):
                ext = rng.choice(["cpp", "cpp", "c", "cxx", "cc", "S"])
                if rng.random() < prof.get("odd", 0.01):
                    ext = "rs"
                rel = rng.choice(["", "", "sub/", "../up/", "up/", "~/"]) + "%s_%d.%s" % (tag, i if rng.random() < 0.8 else 0, ext)
                if rel in o["sources"]:
                    continue
                mk(rel, "int %s_%d;\n" % (tag, i))
                if rng.random() < 0.12 and not rel.startswith("~"):
                    mk(rel.replace(".", "x.", 1) if not rel.startswith("..") else rel, "int x;\n")
                    rel = posixpath.join(posixpath.dirname(rel), "%s_%d*.%s" % (tag, i, ext))
                o["sources"].append(rel)
        if rng.random() < 0.15:
            o["objects"] = [mk("%s_pre.o" % tag, "OBJ %s" % tag)]
        if rng.random() < 0.35:
            o["include_paths"] = rng.sample(["inc_" + tag, ".", "../inc", "~/inc", "/ext/inc", "inc", "in", "inc/c"], rng.choice([1, 2]))
        if rng.random() < 0.3:
            o["defines"] = rng.sample(["D_" + tag, "V=1", "COMMON", "V", "COMMON_2", "D"], rng.choice([1, 2]))
        if rng.random() < 0.2:
            o["libs"] = rng.sample(["l" + tag, "m", "pthread", "l", "pth"], rng.choice([1, 2]))
        if rng.random() < 0.15:
            o["libdirs"] = rng.sample(["L" + tag, "~/lib", "/opt/l"], rng.choice([1, 2]))
        if rng.random() < 0.15:
            o["ldscripts"] = [mk("%s.ld" % tag, "ld", False)]
        for f in FLAGS:
            if rng.random() < 0.2:
                o[f] = " ".join(rng.sample(["-f%s%s" % (tag, f[0]), "-Wall", "-fno-x", "-mq", "-W", "-fno", "-Wall-x"], rng.choice([1, 2])))
        if rng.random() < 0.15:
            o["cxxstd"] = rng.choice(["c++11", "c++20", "gnu++14"])
        if rng.random() < 0.1:
            o["ccstd"] = rng.choice(["c99", "gnu11"])
        if rng.random() < 0.15:
            h = "%s.h" % rng.choice([tag, tag, "shared"])
            o["local_headers"] = [[rng.choice(["", "in/"]) + h, mk("hdr/%s_%s" % (tag, h), "// %s\n" % tag, False)]]
        if rng.random() < 0.06:
            o["qt_moc"] = [mk("%s_q.h" % tag, "// moc me %s\n" % tag)]
        if rng.random() < 0.06:
            o["qt_ui"] = [mk("%s_f.ui" % tag, "ui %s\n" % tag)]
        if rng.random() < 0.12:
            o["optimize"] = rng.choice(["-O2", "-Os"])
        if rng.random() < 0.12:
            o["debug"] = rng.choice(["", "-g3", "-ggdb"])
        if rng.random() < (0.3 if assembly else 0.25):
            o["builddir"] = rng.choice(["b_" + tag, "out/" + tag, "/ext/b/" + tag])
        if rng.random() < 0.15:
            o["toolchain"] = rng.choice(["gcc", "clang", "std", "gccarm-none-eabi-"])
        if rng.random() < 0.1:
            d = absol("dep_%s.txt" % tag, cwd)
            files[d] = "dep"
            o["depends"] = ["dep_%s.txt" % tag]
        if later and rng.random() < (0.6 if assembly else 0.25):
            o["include_modules"] = [request(x, "inc") for x in rng.sample(later, min(len(later), rng.choice([1, 1, 2])))]
        if later and rng.random() < (0.4 if assembly else 0.15):
            o["modules"] = [[x, None if isinstance(r, str) else r[1]] for x in rng.sample(later, min(len(later), rng.choice([1, 1, 2]))) for r in [request(x, "x")]]
            o["modules"] = [[r[0], r[1]] for r in o["modules"]]
        if names and rng.random() < (0.7 if assembly else 0.4):
            o["mdepends"] = [request(x, "m") for x in rng.sample(names, min(n, rng.choice([1, 1, 2, 3])))]
        if assembly is None or assembly == "sub":
            if rng.random() < 0.12:
                o["type"] = rng.choice(["objects", "static_library", "shared_library"])
                if o["type"] != "objects":
                    o["target"] = rng.choice(["lib/", ""]) + "lib%s.x" % tag
        if rng.random() < prof.get("odd", 0.01):
            o.update(rng.choice([{"sources": "x.cpp"}, {"nosuch": 1}, {"libs": "m"}, {"cxx_flags": ["-O"]}, {"builddir": ["b"]}, {"cc_flags": []}, {"include_paths": 0}]))
        elif rng.random() < prof.get("odd", 0.01):
            k = rng.choice(["sources", "libs", "libdirs", "objects", "depends", "include_paths", "defines", "nosuch"])
            o.setdefault(k, {"nosuch": []}.get(k, rng.choice(["", "", 0, False, {}])))
        return o
    decls = []
    for i, x in enumerate(names):
        script = rng.choice(paths)
        for im in impls[x]:
            if rng.random() < 0.2:
                script = rng.choice(paths)
            d = {"k": "module", "name": x, "opts": options("%s%s" % (x, im or ""), script, names[i + 1:], None)}
            if im:
                d["impl"] = im
                if rng.random() < 0.5:
                    d["fn"] = "implementation"
                if im == usual[x] and rng.random() < 0.6:
                    d["default"] = 1
            decls.append((script, d))
        if impls[x] != [None] and rng.random() < 0.6:
            decls.append((rng.choice(paths), {"k": "defimpl", "name": x, "impl": usual[x] if rng.random() < 0.9 else rng.choice(impls[x]), "fn": rng.choice(["module_defimpl", "module_default_implementation"])}))
    # nested scripts are executed before anything is assembled, or right after some of the modules
    for p in paths[1:]:
        by = rng.choice([top] + [q for q in paths[1:] if paths.index(q) < paths.index(p)])
        decls.append((by, {"k": "exec", "path": rng.choice([posixpath.relpath(p, posixpath.dirname(by)), posixpath.relpath(p, posixpath.dirname(by)), p])}))
    rng.shuffle(decls)
    for p, d in decls:
        scripts[p].append(d)
    last = paths[-1] if rng.random() < 0.3 and len(paths) > 1 else None
    for i in range(rng.choice([1, 1, 2, 3])):
        p = top
        k = rng.choice(["app", "app", "shared", "static", "objects", "both"])
        d = {"k": k, "name": "p%d" % i, "opts": options("p%d" % i, p, names, "asm")}
        if k == "both":
            d["static"], d["shared"] = "p%d.a" % i, "out/p%d.so" % i
        elif k != "objects" and rng.random() < 0.5:
            d["target"] = rng.choice(["bin/p%d" % i, "p%d" % i, "p%d.elf" % i])
        if k in ("shared", "static") and rng.random() < 0.3:
            d["fn"] = "library"
        scripts[p].append(d)
    if last:
        # the assemblies in a script of their own, somewhere else
        q = rng.choice(DIRS) + "/asm.g.py"
        if q not in scripts:
            asm = [d for d in scripts[top] if d["k"] in KINDS or d["k"] == "both"]
            old = {d["name"]: posixpath.dirname(top) for d in asm}
            dn, dq = posixpath.dirname(top), posixpath.dirname(q)
            if dn == dq:
                scripts[q] = asm
                scripts[top] = [d for d in scripts[top] if d not in asm] + [{"k": "exec", "path": posixpath.relpath(q, dn)}]
    return {"family": "modules", "scripts": scripts, "files": files, "dirs": sorted(dirs), "top": top, "cwd": cwd}


def shrink(scn):
    h = scn["history"]
    for i in range(len(h) - 1, -1, -1):
        if len(h) > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            if any(o["op"] == "proc" for o in s["history"]):
                yield s
    for i, o in enumerate(h):
        if o["op"] != "proc":
            continue
        for f in ("interrupt", "fsfault", "fail"):
            if f in o:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        for j in range(len(o["asks"])):
            if len(o["asks"]) > 1:
                s = _copy.deepcopy(scn)
                del s["history"][i]["asks"][j]
                yield s
    asked = {w[-1] for o in h for w in o.get("asks", [])}
    asked |= {d["name"] for p in sorted(scn["scripts"]) for d in scn["scripts"][p] if d.get("target") in asked}

    def ok(s):
        m = Model(s, sorted(s["files"]), s["cwd"])
        try:
            m.script(s["top"])
        except Refused:
            return True
        except (RecursionError, KeyError, Vague):
            return False
        return not outputs_clash(m)
    for p in sorted(scn["scripts"]):
        for i in range(len(scn["scripts"][p]) - 1, -1, -1):
            d = scn["scripts"][p][i]
            if d["name"] not in asked if "name" in d else True:
                s = _copy.deepcopy(scn)
                del s["scripts"][p][i]
                if ok(s):
                    yield s
            for f in sorted(d.get("opts", {})):
                s = _copy.deepcopy(scn)
                del s["scripts"][p][i]["opts"][f]
                if ok(s):
                    yield s
                v = d["opts"][f]
                if isinstance(v, list) and len(v) > 1:
                    for j in range(len(v)):
                        s = _copy.deepcopy(scn)
                        del s["scripts"][p][i]["opts"][f][j]
                        if ok(s):
                            yield s
