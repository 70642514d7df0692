"""Scenario family "words": command lines of random words for scripts with targets, actions and routines of every kind, in processes that are
interrupted, whose commands and functions fail and whose standard output breaks, against a model of which call the words ask for."""
import copy as _copy
import posixpath

from .builds import gen_cfg
from .common import Report
from .kernel import SimKilled
from .proc import Sim, event_digest

W = "/w"
RULE = "the words of a command line asked for a call"
REAL = ["licant/* (imported from the working tree, unmodified): cli, core, make, solver, util", "CPython 3.12 argparse, asyncio, threading, subprocess on top of the seams"]
STUB = ["shell and commands (simulated)", "file system (in-memory)", "thread scheduling, clock", "SIGINT", "standard output (recorded, may fail)"]
ASSUME = ["options stand before or after all words (argparse takes no words in two places)", "one process has one command line"]

FILE_ACTIONS = {"makefile", "clean", "build", "clr", "update", "actlist", "dependies", "print"}
SET_ACTIONS = {"makefile", "clean", "actlist", "dependies", "print"}
UPD_ACTIONS = {"update", "recurse_update", "recurse_update_get_args", "actlist", "dependies", "print"}
ACT_ACTIONS = {"actlist", "dependies", "print"}
INHERITED = {"recurse_update", "recurse_update_get_args", "update_if_need"}     # nobody's business, not judged
SHOW = {"actlist", "dependies", "print"}
OUTCOMES = [None, None, True, 0, 1, "", "x", "list"]


class Odd(Exception):
    pass


class Meaning:
    """What a command line asks for."""

    def __init__(self, decls):
        self.by = {}
        for d in decls:
            self.by[d["n"]] = d
        self.files = {posixpath.join(W, d["n"]): d for d in decls if d["k"] == "file"}
        self.files["/w/src.txt"] = {"k": "source", "n": "src.txt"}

    def find(self, word):
        d = self.by.get(word)
        if d is not None:
            return d
        return self.files.get(posixpath.normpath(posixpath.join(W, word)))

    def actions(self, d):
        k = d["k"]
        if k == "act":
            return ACT_ACTIONS | set(d["actions"]) | set(d["ghost"])
        return {"file": FILE_ACTIONS | INHERITED, "source": FILE_ACTIONS | INHERITED, "set": SET_ACTIONS | INHERITED | {"update"}, "upd": UPD_ACTIONS | INHERITED}.get(k)

    def default(self, d):
        return {"act": d.get("default") or "action", "file": "makefile", "source": "makefile", "set": "makefile", "upd": "recurse_update_get_args", "rt": "run"}[d["k"]]

    def call(self, words, deflt):
        """(declaration, action, arguments) or None for a command line that means nothing."""
        if not words:
            d = self.find(deflt) if deflt is not None else None
            return (d, self.default(d), []) if d else None
        d = self.find(words[0])
        if d is not None:
            if len(words) == 1 or d["k"] == "rt":
                return (d, self.default(d), words[1:])
            return (d, words[1], words[2:]) if words[1] in self.actions(d) else None
        d = self.find(deflt) if deflt is not None else None
        if d is None or d["k"] == "rt" or words[0] not in self.actions(d):
            return None
        return (d, words[0], words[1:])

    def tree(self, d):
        """Files a build of d may make."""
        out = []
        for x in ([d] if d["k"] == "file" else [self.by[n] for n in d.get("targets", [])]):
            while x["n"] not in out:
                out.append(x["n"])
                if x["dep"] == "src.txt":
                    break
                x = self.by[x["dep"]]
        return out


class Run:
    def __init__(self, scn, chooser):
        self.scn = scn
        self.rep = Report()
        self.sim = Sim(chooser, dict(scn.get("cfg", {})))
        self.k, self.fs = self.sim.k, self.sim.fs
        self.k.cmd_plan = self.cmd_plan
        self.fails = {}

    def cmd_plan(self, proc):
        for o in proc.outs:
            f = self.fails.get(posixpath.basename(o))
            if f:
                return {"fail": f}
        return {}

    # ---- the script
    def function(self, n, act, spec, routine=False):
        k = self.k

        def work(args):
            import time
            k.log("act", n=n, act=act, args=list(args))
            if spec.get("dur"):
                time.sleep(spec["dur"])
            res = spec["res"]
            if res == "raise":
                raise ValueError("wrong")
            if res == "exit":
                raise SystemExit(3)
            if res == "false":
                return False
            return ["x"] if res == "list" else res
        ar = spec.get("arity")
        if routine:
            return {None: lambda *a: work(a), 0: lambda: work([]), 1: lambda x: work([x]), 2: lambda x, y: work([x, y])}[ar]
        return {None: lambda self, *a: work(a), 0: lambda self: work([]), 1: lambda self, x: work([x]), 2: lambda self, x, y: work([x, y])}[ar]

    def declare(self, L, core, d):
        k = d["k"]
        mk = self.scn["core"] == "mk"
        if k == "act":
            kw = {a: self.function(d["n"], a, s) for a, s in d["actions"].items()}
            kw.update({a: self.function(d["n"], a, {"res": None}) for a in d["hidden"]})
            if d.get("default"):
                kw["default_action"] = d["default"]
            if d.get("action"):
                kw["action"] = self.function(d["n"], "action", d["action"])
            acts = sorted(set(d["actions"]) | set(d["ghost"]))
            acts = {"set": set(acts), "list": acts, "tuple": tuple(acts)}[d["form"]]
            core.add(L.core.Target(d["n"], deps=[], actions=acts, **kw)) if d["form"] == "set" else core.target(d["n"], actions=acts, **kw)
        elif k == "upd":
            core.updtarget(d["n"], update=self.function(d["n"], "update", d["update"]), update_if=lambda s: True)
        elif k == "rt":
            core.routine(self.function(d["n"], "run", d["run"], True), tgt=d["n"])
        elif k == "file":
            if mk:
                core.ftarget(tgt=d["n"], deps=[d["dep"]], exec="cp %s {tgt}" % d["dep"])
            else:
                L.makefile(tgt=d["n"], deps=[d["dep"]], do="cp %s {tgt}" % d["dep"], message="MAKE {tgt}")
        elif k == "set":
            L.make.fileset(d["n"], list(d["targets"]), core=core)

    def process(self, op):
        k, fs, rep, scn = self.k, self.fs, self.rep, self.scn
        self.fails = op.get("fail", {})
        k.fault = None
        k.triggers = []
        if op.get("interrupt"):
            k.interrupt_at = k.ch.points + op["interrupt"]
        before = {p: fs._read(p) for p in self.names() if fs._exists(p)}
        calls = []
        words = op["words"]
        argv = list(op["pre"]) + (["--"] if op.get("dashes") else []) + list(words) + list(op["post"])

        def body(L):
            core = L.make.MakeCore() if scn["core"] == "mk" else L.core.default_core()
            if scn["core"] == "mk":
                core.source("src.txt")
            else:
                L.source("src.txt")
            for d in scn["decls"]:
                self.declare(L, core, d)
            if op.get("own"):
                L.cli.add_argument("--flavour", default="plain")
                if op["how"] == "sys":
                    L.cli.parse()
            if op.get("stdout_fail") is not None:
                k.out.fail_after = op["stdout_fail"]
                k.out.err = 32
            for deflt in op["defaults"]:
                c = {"first": len(k.events), "ok": False, "default": deflt}
                calls.append(c)
                kw = {} if op["how"] == "sys" else {"argv": argv}
                if deflt is not None:
                    kw["default"] = deflt
                if scn["core"] == "mk":
                    kw["core"] = core
                try:
                    L.ex(**kw) if op.get("short") else L.cli.cliexecute(**kw)
                    c["ok"] = True
                finally:
                    if not k.killed:
                        c["last"] = len(k.events)
        res = self.sim.process(body, argv=["make.py"] + (argv if op["how"] == "sys" else ["elsewhere"]), cwd=W)
        k.drain()
        text = res.text(1) if res.out else ""
        k.out = None
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        if res.why in ("deadlock", "no-progress"):
            rep.add("C33", "a command line never returns", repr(argv), key="hang")
            return
        ev = k.events[res.first:]
        cut = any(e["ev"] == "interrupt" for e in ev)
        broken = any(e["ev"] == "stdout_fault" for e in ev)
        m = Meaning(scn["decls"])
        bad_option = any(x.startswith("--nosuch") for x in argv)
        files = dict(before)
        for i, c in enumerate(calls):
            final = i + 1 == len(calls)
            want = None if bad_option else m.call(words, c["default"])
            acts = [(e["n"], e["act"], e["args"]) for e in k.events[c["first"]:len(k.events) if final else c["last"]] if e["ev"] == "act"]
            cmds = [e for e in k.events[c["first"]:len(k.events) if final else c["last"]] if e["ev"] == "cmd_start"]
            ok = c["ok"] and not (final and res.code)
            self.judge(m, want, words, c, acts, cmds, ok, cut, broken, text, final)
        if len(calls) < len(op["defaults"]) and not cut and not broken and calls and calls[-1]["ok"]:
            rep.add("C33", "the script ends early", repr(argv))
        after = {p: fs._read(p) for p in self.names() if fs._exists(p)}
        may = set()
        for c in calls:
            want = None if bad_option else m.call(words, c["default"])
            if want is not None and want[0]["k"] in ("file", "set"):
                may |= {posixpath.join(W, x) for x in m.tree(want[0])} if want[1] in ("makefile", "clean") or want[1] in INHERITED else {posixpath.join(W, want[0]["n"])}
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p) and p not in may:
                rep.add("C33", "a file the command line has nothing to do with was changed", "%s: %r" % (p, argv))

    def names(self):
        return [posixpath.join(W, d["n"]) for d in self.scn["decls"] if d["k"] == "file"] + ["/w/src.txt"]

    # ---- judgement
    def judge(self, m, want, words, c, acts, cmds, ok, cut, broken, text, final):
        rep, fs = self.rep, self.fs
        what = "%r default %r" % (words, c["default"])

        def bad(t, d=""):
            rep.add("C33", t, "%s %s %s" % (what, d, text[-150:]))
        if want is None:
            rep.probe("meaningless")
            if acts:
                bad("something was called although the words mean nothing", acts[0])
            elif cmds:
                bad("a command ran although the words mean nothing", cmds[0]["cmd"])
            elif ok:
                bad("success reported although the words mean nothing")
            return
        d, act, args = want
        rep.probe("calls_" + d["k"])
        if args:
            rep.probe("calls_with_arguments")
        k = d["k"]
        expect, fails = [], None       # None: not decided here
        if k != "act" and (act in INHERITED and act not in UPD_ACTIONS or k == "set" and act == "update" or k != "upd" and act in INHERITED):
            return
        if k == "act":
            spec = d["actions"].get(act)
            if act == "action" and "action" not in d["actions"]:
                spec = d.get("action") or {"arity": 0, "res": None, "silent": 1}
            if act in SHOW and act not in d["actions"]:
                fails = bool(args)
            elif spec is None:
                fails = True           # a name without a function
            elif spec.get("arity") is not None and spec["arity"] != len(args):
                fails = True
            else:
                expect = [] if spec.get("silent") else [(d["n"], act, args)]
                fails = spec["res"] in ("raise", "exit", "false")
        elif k == "rt":
            spec = d["run"]
            if spec.get("arity") is not None and spec["arity"] != len(args):
                fails = True
            else:
                expect, fails = [(d["n"], "run", args)], spec["res"] in ("raise", "exit", "false")
        elif k == "upd":
            spec = d["update"]
            if act in SHOW:
                fails = bool(args)
            elif act == "recurse_update" and len(args) == 1:
                return                 # its argument is a number of jobs
            elif args and (act != "update" or spec.get("arity") is not None and spec["arity"] != len(args)):
                fails = True
            elif spec.get("arity") not in (None, len(args)):
                fails = True
            else:
                expect, fails = [(d["n"], "update", args)], spec["res"] in ("raise", "exit", "false")
        else:
            outs = [posixpath.join(W, x) for x in m.tree(d)] if k in ("file", "set") else []
            if args or act in SHOW:
                fails = bool(args)
                if cmds:
                    bad("a command ran although none was asked for", cmds[0]["cmd"])
            elif k == "source":
                fails = None
            elif act == "makefile":
                failed = [o for o in outs if posixpath.basename(o) in self.fails]
                fails = False if not failed else None
                if ok and final and not all(fs._exists(o) for o in outs):
                    bad("success reported but a file was not made", [o for o in outs if not fs._exists(o)])
                rep.probe("made")
            elif act == "clean":
                fails = False
                if ok and final and any(fs._exists(o) for o in outs):
                    bad("success reported but a file is still there", [o for o in outs if fs._exists(o)])
                rep.probe("cleaned")
            elif act == "clr":
                fails = False
                if ok and final and fs._exists(posixpath.join(W, d["n"])):
                    bad("success reported but the file is still there", d["n"])
            elif act in ("build", "update"):
                if ok and (len(cmds) != 1 or final and not fs._exists(posixpath.join(W, d["n"]))):
                    bad("the step asked for did not run once", [e["cmd"] for e in cmds])
            if d["k"] != "source" and cmds and act not in ("makefile", "clean", "build", "update", "clr"):
                bad("a command ran although none was asked for", cmds[0]["cmd"])
        if acts != expect and not (acts == [] and (cut or broken)):
            bad("another call was made than the words ask for", "%r, not %r" % (acts, expect))
            return
        if fails and ok:
            bad("success reported although the call failed", act)
        if fails is False and not ok and not cut and not broken:
            bad("a call that succeeds is reported as failed", act)


def run(scn, chooser):
    r = Run(scn, chooser)
    rep, k, fs = r.rep, r.k, r.fs
    try:
        fs._write("/w/src.txt", "S")
        k.now_ns += 5_000_000_000
        for op in scn["history"]:
            if op["op"] == "del":
                if fs._exists(op["p"]):
                    fs._unlink(op["p"])
            else:
                r.process(op)
            if k.unsupported:
                rep.skip(k.unsupported)
                break
            if any(v.key == "hang" for v in rep.violations):
                break
            k.now_ns += 5_000_000_000
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = any(x.startswith("calls_") for x in rep.probes)
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
NAMES = ["a", "all", "install", "go", "x1", "clean", "print", "list", "update", "b c", "\u00e4", "1", "do*", "n-x", "t.t", "makefile"]
ACTS = ["go", "list", "install", "clean", "print", "run", "a", "all", "7", "two words", "\u00fc", "build", "x.y", "action"]
ARGS = ["x", "xy", "", "a b", "abc", "7", "go", "all", "../up", "k=v", "\u00e9t\u00e9", "*", "-", "f0.txt", "list"]


def gen(rng, prof):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5]))
    decls = []

    def spec(arities=(None, None, None, 0, 1, 2)):
        s = {"res": rng.choice(OUTCOMES)}
        if rng.random() < prof.get("fail", 0.15):
            s["res"] = rng.choice(["raise", "exit", "false", "false"])
        a = rng.choice(arities)
        if a is not None:
            s["arity"] = a
        if rng.random() < 0.2:
            s["dur"] = rng.choice([0.1, 1])
        return s
    files = []
    for i in range(rng.choice([0, 1, 2, 3])):
        dep = rng.choice(["src.txt"] + files)
        decls.append({"k": "file", "n": "f%d.txt" % i, "dep": dep})
        files.append("f%d.txt" % i)
    for n in names:
        kind = rng.choice(["act", "act", "act", "rt", "upd", "set"])
        if kind == "set" and not files:
            kind = "act"
        if kind == "act":
            pool = rng.sample(ACTS, 6)
            na = rng.choice([0, 1, 2, 3])
            d = {"k": "act", "n": n, "actions": {a: spec() for a in pool[:na]}, "hidden": pool[na:na + rng.choice([0, 0, 1])], "ghost": pool[4:4 + rng.choice([0, 0, 0, 1])],
                 "form": rng.choice(["set", "list", "tuple"])}
            d["hidden"] = [x for x in d["hidden"] if x not in ("print", "action")]
            d["ghost"] = [x for x in d["ghost"] if x not in ("print", "action")]
            if d["actions"] and rng.random() < 0.4:
                d["default"] = rng.choice(sorted(d["actions"]))
            elif "action" not in d["actions"] and rng.random() < 0.5:
                d["action"] = spec((None, None, 0))
            decls.append(d)
        elif kind == "rt":
            decls.append({"k": "rt", "n": n, "run": spec()})
        elif kind == "upd":
            decls.append({"k": "upd", "n": n, "update": spec((None, None, 0, 1))})
        else:
            decls.append({"k": "set", "n": n, "targets": rng.sample(files, rng.randrange(1, len(files) + 1))})
    m = Meaning(decls)
    targets = [d["n"] for d in decls]

    def more(numbers, special):
        n = rng.choice(numbers)
        if rng.random() < 0.6:
            return rng.sample(ARGS, n)
        return rng.choices(ARGS[:4] + special, k=n)

    def words():
        r = rng.random()
        out = []
        if r < 0.1:
            return out
        if r < 0.75:
            t = rng.choice(targets)
            d = m.by[t]
            out.append(t if d["k"] != "file" or rng.random() < 0.6 else rng.choice(["./" + t, "/w/" + t, "../w/" + t]))
            if d["k"] == "rt":
                return out + more([0, 1, 1, 2, 3], ["run", "update", "actlist", "recurse_update", t] + ACTS)
            r2 = rng.random()
            if r2 < 0.65:
                out.append(rng.choice(sorted(m.actions(d))))
            elif r2 < 0.75:
                out.append(rng.choice(d.get("hidden") or ACTS))
            elif r2 < 0.8:
                out.append(rng.choice(targets))
            else:
                return out
        else:
            out.append(rng.choice(ACTS + NAMES + ["nothing", "src.txt", ""]))
        if rng.random() < 0.04:      # nearly a word
            out[0] = rng.choice([" %s", "%s ", "%s\n", "\t%s", "%s/", "=%s"]) % out[0]
        return out + more([0, 0, 0, 1, 1, 2, 3], [out[-1]])
    hist = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        deflt = rng.choice([None] + targets * 2 + ["missing"] * (rng.random() < 0.1))
        op = {"op": "proc", "words": words(), "pre": [], "post": [], "how": rng.choice(["sys", "param"]), "defaults": [deflt]}
        if deflt and rng.random() < 0.15:
            op["defaults"].append(rng.choice(targets))
        for side in ("pre", "post"):
            if rng.random() < 0.5:
                op[side] += rng.choice([["-j", "2"], ["-j3"], ["--threads", "1"], ["-q"], ["-d"], ["-t"], ["--trace"], ["--printruntime"], ["-j", "j"]])
        if rng.random() < 0.1:
            op["own"] = 1
            op["pre"] += rng.choice([["--flavour", "all"], ["--flavour=go"], []])
        if rng.random() < 0.1 and "--" not in op["words"]:
            op["dashes"] = 1
            op["post"] = []
            if op["words"] and rng.random() < 0.3:
                op["words"].append("-x")
        elif rng.random() < 0.03:
            op["post"].append("--nosuch")
        if rng.random() < 0.2:
            op["short"] = 1
        if files and rng.random() < prof.get("fail", 0.1):
            op["fail"] = {rng.choice(files): {"stage": rng.choice(["before", "after"]), "rc": rng.choice([1, 2])}}
        r = rng.random()
        if r < prof.get("interrupt", 0.05):
            op["interrupt"] = rng.choice([rng.randrange(1, 40), rng.randrange(1, 300)])
        elif r < prof.get("interrupt", 0.05) + prof.get("stdout", 0.05):
            op["stdout_fail"] = rng.choice([0, 1, 5, 20, 60])
        hist.append(op)
        if files and rng.random() < 0.3:
            hist.append({"op": "del", "p": "/w/" + rng.choice(files)})
    return {"family": "words", "decls": decls, "history": hist, "core": rng.choice(["mk", "default"]), "cfg": gen_cfg(rng, prof)}


def shrink(scn):
    h = scn["history"]
    for i in range(len(h) - 1, -1, -1):
        if len(h) > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            if any(o["op"] == "proc" for o in s["history"]):
                yield s
    used = {x for d in scn["decls"] for x in d.get("targets", []) + [d.get("dep")]}
    for i in range(len(scn["decls"]) - 1, -1, -1):
        if scn["decls"][i]["n"] not in used:
            s = _copy.deepcopy(scn)
            del s["decls"][i]
            yield s
    for i, o in enumerate(h):
        if o["op"] != "proc":
            continue
        for f in ("interrupt", "stdout_fail", "own", "dashes", "short", "fail"):
            if f in o:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        for f in ("pre", "post"):
            if o[f]:
                s = _copy.deepcopy(scn)
                s["history"][i][f] = []
                yield s
        if len(o["defaults"]) > 1:
            for d in o["defaults"]:
                s = _copy.deepcopy(scn)
                s["history"][i]["defaults"] = [d]
                yield s
        for j in range(len(o["words"])):
            s = _copy.deepcopy(scn)
            del s["history"][i]["words"][j]
            yield s
    for i, d in enumerate(scn["decls"]):
        for f in ("hidden", "ghost"):
            if d.get(f):
                s = _copy.deepcopy(scn)
                s["decls"][i][f] = []
                yield s
        for a in sorted(d.get("actions", {})):
            if d.get("default") != a:
                s = _copy.deepcopy(scn)
                del s["decls"][i]["actions"][a]
                yield s
