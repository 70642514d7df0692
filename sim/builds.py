"""Scenario family "build": file rules, routines and updatable targets on the real cores, solver, cache, command line and event loop.

A scenario is plain data: declarations, initial files and a history of user actions and licant processes.  `run` executes it in the simulator and
judges it against a small reference model of what a build is."""
import asyncio
import copy as _copy
import fnmatch
import posixpath
import random

from . import kernel
from .common import (LINK, Faults, Report, noise_bytes, normal, pick_strategy, relayed, spell)
from .kernel import Chooser, HarnessError, SimKilled, current
from .proc import Sim, event_digest
from .shell import gen_content

W = "/w"
RULE = "at least one build step or command ran and the scheduler switched between threads or commands at least once"
REAL = ["licant/* (imported from the working tree, unmodified): core, solver, make, cache, cli, util, scripter",
        "CPython 3.12 asyncio, concurrent.futures, threading, queue, subprocess, glob, argparse on top of the seams"]
STUB = ["thread scheduler, locks, clocks and timers (simulated)", "selector and self-pipe of the event loop (simulated)", "file system (in-memory, with mtimes, faults)",
        "shell and commands cp, cat, rm, mkdir, echo, touch, true, false and a generator (simulated)", "standard output and error (recorded)", "signals (simulated SIGINT)"]
ASSUME = ["a step reads its inputs while it runs and writes only its own output", "two edits of a file are at least two time stamp units apart from any build",
          "the simulated shell and file system behave like sh, coreutils and Linux for what licant asks of them",
          "threads can be preempted at calls that can block or have effects and, in part of the runs, between any two lines of licant"]
MACROS = ("iapp", "iheaders", "ishlib", "ilibrary")
FILE_KINDS = ("copy", "cmd", "func", "touch")


def key_of(d):
    return d["out"] if d["k"] in FILE_KINDS or d["k"] == "glob" else d["p"] if d["k"] in ("src", "dir") else d["n"]


# ------------------------------------------------------------------------------------------------------------------- model
class Node:
    __slots__ = ("key", "kind", "deps", "decl", "observable")

    def __init__(self, key, kind, deps, decl, observable):
        self.key, self.kind, self.deps, self.decl, self.observable = key, kind, deps, decl, observable


class Missing(Exception):
    pass


def expand_glob(d, fs):
    """The rule a wildcard stands for when it is declared: its inputs are the files that are there."""
    files = fs._tree(d["dir"])[0] if fs._exists(d["dir"]) else []
    ins = sorted(p for p in files if posixpath.dirname(p) == d["dir"] and fnmatch.fnmatch(posixpath.basename(p), d["pat"]))
    x = {a: d[a] for a in d if a not in ("dir", "pat", "spd", "as")}
    x.update(k=d["as"], ins=[[p, spell(p, d.get("how", 0))] for p in ins] + d["ins"])
    return x


def shown(d):
    """Inputs that are dependencies of the rule itself; the others are reached through file sets."""
    return [x for x in d.get("ins", []) if len(x) < 3]


class Model:
    """What the declarations mean."""

    def __init__(self, env=None):
        self.nodes = {}
        self.decls = []
        self.env = env or {}

    def declare(self, d, fs):
        self.decls.append(d)
        k = d["k"]
        if k in MACROS:
            from .install import expand
            for x in expand(d, fs, self.env):
                self.declare(x, fs)
            return
        if k == "glob":
            d = expand_glob(d, fs)
            k = d["k"]
        deps = [x[0] for x in shown(d)] + [x[0] for x in d.get("deps", [])]
        key = key_of(d)
        if k in FILE_KINDS or k == "dir":
            chain = []
            p = posixpath.dirname(key)
            while not fs._exists(p):
                chain.append(p)
                p = posixpath.dirname(p)
            for i, c in enumerate(chain):
                n = self.nodes.get(c)
                par = [chain[i + 1]] if i + 1 < len(chain) else []
                if n is None:
                    self.nodes[c] = Node(c, "dir", par, None, False)
            if chain:
                deps.append(chain[0])
        if k == "src":
            old = self.nodes.get(key)
            if old is not None:
                return
        self.nodes[key] = Node(key, k, list(dict.fromkeys(deps)), d, k in FILE_KINDS or k in ("routine", "upd", "plain"))
        for x in shown(d) + d.get("deps", []):
            # files mentioned without a rule of their own are sources
            if x[0].startswith("/") and x[0] not in self.nodes:
                self.nodes[x[0]] = Node(x[0], "src", [], None, False)

    def tree(self, key):
        seen = []
        mark = set()

        def go(k):
            if k in mark:
                return
            mark.add(k)
            n = self.nodes.get(k)
            if n is None:
                raise Missing(k)
            for d in n.deps:
                go(d)
            seen.append(k)
        go(key)
        return seen          # dependencies first

    def needs(self, tree, stat):
        """Which steps are out of date.  stat(path) -> modification time or None."""
        mt = {}
        for k in tree:
            n = self.nodes[k]
            if n.kind in FILE_KINDS or n.kind == "src":
                mt[k] = stat(k) or 0
            elif n.kind == "fileset":
                mt[k] = max([mt[d] for d in n.deps] or [0])
            else:
                mt[k] = 0
        need = {}
        for k in tree:
            n = self.nodes[k]
            v = any(need[d] for d in n.deps)
            if n.kind in FILE_KINDS:
                v = v or bool(n.decl.get("force")) or stat(k) is None or any(mt[d] > mt[k] for d in n.deps)
            elif n.kind == "src":
                v = v or stat(k) is None
            elif n.kind == "dir":
                v = stat(k) is None
            elif n.kind in ("routine", "upd"):
                v = v or bool(n.decl["upd"])
            elif n.kind == "plain":
                v = True
            need[k] = v
        return need

    def content(self, key, src, memo=None):
        """Content of a file in a clean build; src(path) -> bytes or None."""
        memo = {} if memo is None else memo
        if key in memo:
            v = memo[key]
        else:
            n = self.nodes[key]
            try:
                if n.kind == "src":
                    v = src(key)
                elif n.kind == "touch":
                    v = n.decl["content"].encode()
                else:
                    v = rule_content(n.decl, [self.content(i[0], src, memo) for i in n.decl["ins"]])
            except Missing:
                v = None
            memo[key] = v
        if v is None:
            raise Missing(key)
        return v


def rule_content(d, ins):
    if d["k"] == "copy":
        return ins[0]
    if d["k"] == "func":
        return gen_content("F" + d["tag"], ins)
    t = d.get("tmpl", 0)
    if t == 1:
        return b"".join(ins)
    if t == 3:
        return ins[0]
    return gen_content(d["tag"], ins)


def rule_command(d):
    ins = " ".join(i[1] for i in d["ins"])
    t = d.get("tmpl", 0)
    if t == 1:
        return "cat %s > {tgt}" % ins
    if t == 2:
        return "echo working && simgen {tgt} %s %s" % (d["tag"], ins)
    if t == 3:
        return "cp %s {tgt}" % ins
    if t == 4:
        return "simgen {tgt} %s %s && true" % (d["tag"], ins)
    return "simgen {tgt} %s %s" % (d["tag"], ins)


# ----------------------------------------------------------------------------------------------------------------- tracker
class Tracker:
    """Follows one build as its events happen."""

    def __init__(self, rep, k, model, target, jobs, stat, opts):
        self.rep, self.k, self.model = rep, k, model
        self.jobs = jobs
        self.target = target
        self.opts = opts
        self.pos = len(k.events)
        self.tree = model.tree(target)
        self.intree = set(self.tree)
        self.need = model.needs(self.tree, stat)
        self.steps = {}           # key -> [start seq, end seq, ok]
        self.running = {}
        self.max_running = 0
        self.failed = []
        self.failed_quiet = False
        self.int_quiet = False
        self.interrupted = False
        self.faulted = False
        self.stdout_fault = False
        self.pids = {}
        self.cmds = {}
        self.over = False
        self.need_obs = [x for x in self.tree if self.need[x] and model.nodes[x].observable]
        self.obs_deps = {}
        for x in self.tree:
            acc = set()
            for d in model.nodes[x].deps:
                if not self.need[d]:
                    continue
                if model.nodes[d].observable:
                    acc.add(d)
                else:
                    acc |= self.obs_deps[d]
            self.obs_deps[x] = acc
        self.dirs = [x for x in self.tree if model.nodes[x].kind == "dir"]
        self.rule_outs = {x for x in model.nodes if model.nodes[x].kind in FILE_KINDS}
        self.srcs = [x for x in self.tree if model.nodes[x].kind == "src"]
        self.alldirs = {x for x in model.nodes if model.nodes[x].kind == "dir"}
        self.quiets = 0

    def start(self, key, e):
        rep, m = self.rep, self.model
        if key not in self.intree:
            rep.add("C02", "step outside the tree of the target ran", key)
            return
        if key in self.steps:
            rep.add("C02", "step ran twice in one build", key)
            self.running[key] = self.running.get(key, 0) + 1
        else:
            self.running[key] = 1
            self.steps[key] = [e["seq"], None, None]
        if not self.need[key]:
            rep.add("C08", "up-to-date step was executed", key)
        for d in sorted(self.obs_deps[key]):
            s = self.steps.get(d)
            if s is None or s[1] is None:
                rep.add("C01", "step started before a step it depends on finished", "%s before %s" % (key, d))
            elif s[2] is False:
                rep.add("C04", "step depending on a failed step was started", "%s after %s" % (key, d))
        if self.failed_quiet:
            rep.add("C04", "new step started after a failure had been noticed", key)
        if self.int_quiet:
            rep.add("C17", "new step started after the interrupt", key)
        if m.nodes[key].kind in FILE_KINDS:
            d = posixpath.dirname(key)
            if not self.k.fs._exists(d):
                rep.add("C13", "directory of an output missing when its step started", key)
        n = sum(self.running.values())
        self.max_running = max(self.max_running, n)
        if self.jobs is not None and n > self.jobs:
            rep.add("C06", "more steps running than jobs", "%d > %d" % (n, self.jobs))
        if n > 1:
            rep.probe("parallel_steps")

    def end(self, key, ok, e):
        if key in self.running:
            self.running[key] -= 1
            if not self.running[key]:
                del self.running[key]
        s = self.steps.get(key)
        if s is not None:
            s[1] = e["seq"]
            s[2] = ok if s[2] is None else (s[2] and ok)
        if not ok:
            self.failed.append(key)
            if len(self.failed) > 1:
                self.rep.probe("several_failures")
            if self.running:
                self.rep.probe("failure_while_others_run")

    def feed(self):
        if self.over:
            return
        ev = self.k.events
        while self.pos < len(ev):
            e = ev[self.pos]
            self.pos += 1
            t = e["ev"]
            if t == "cmd_start":
                key = next((o for o in e["outs"] if o in self.rule_outs), None)
                self.cmds[e["pid"]] = e
                if key is not None and e["tool"] != "rm":
                    self.pids[e["pid"]] = key
                    self.start(key, e)
                elif e["step"] is None and e["tool"] not in ("rm", "mkdir"):
                    self.rep.add("C02", "undeclared command executed", e["cmd"])
            elif t == "cmd_end":
                key = self.pids.pop(e["pid"], None)
                if key is not None:
                    self.end(key, e["rc"] == 0, e)
            elif t == "step_start":
                self.start(e["name"], e)
                if e.get("args") is not None and e["args"] != (self.opts.get("args", []) if e["name"] == self.target else []):
                    self.rep.add("C18", "a routine was called with arguments this request did not give it", "%s %s" % (e["name"], e["args"]))
            elif t == "step_end":
                self.end(e["name"], e["ok"], e)
            elif t == "open_w":
                a = e["actor"]
                if a[0] == "thread" and a[1] is None and e["path"] in self.rule_outs and e["path"] not in self.running:
                    self.start(e["path"], e)
            elif t == "close_w":
                a = e["actor"]
                if a[0] == "thread" and a[1] is None and e["path"] in self.running:
                    self.end(e["path"], not self.write_fault(e["path"]), e)
            elif t == "fs":
                a = e["actor"]
                if e["op"] == "rename_to" and a[0] == "thread" and a[1] is None and e["path"] in self.rule_outs and e["path"] not in self.running:
                    self.start(e["path"], e)
                    self.end(e["path"], True, e)
                if e["op"] == "mkdir" and a[0] == "thread" and e["path"] in self.alldirs:
                    if e["path"] not in self.intree and not any(x.startswith(e["path"] + "/") for x in self.srcs):
                        self.rep.add("C13", "directory not needed by this build was created", e["path"])
            elif t == "fs_fault":
                self.faulted = True
                self.last_fault = e
            elif t == "spawn_fault":
                self.faulted = True
            elif t == "stdout_fault":
                self.stdout_fault = True
            elif t == "interrupt":
                self.interrupted = True

    last_fault = None

    def write_fault(self, path):
        return self.last_fault is not None and self.last_fault["op"] in ("write", "open_w", "fsync")

    def quiet(self):
        """Nothing can happen now except by the passing of time."""
        if self.over:
            return
        self.feed()
        self.quiets += 1
        if self.failed or self.faulted:
            self.failed_quiet = True
            return
        if self.interrupted:
            self.int_quiet = True
            return
        if self.stdout_fault or self.jobs is None or self.jobs > self.k.cfg.get("cpus", 8):
            return
        n = sum(self.running.values())
        if n >= self.jobs:
            return
        if self.k.pool_miscount():
            self.rep.probe("library_pool_miscounts")
            return
        for x in self.need_obs:
            if x in self.steps:
                continue
            if all(d in self.steps and self.steps[d][2] for d in self.obs_deps[x]):
                if all(self.k.fs._exists(d) for d in self.model.nodes[x].deps if self.model.nodes[d].kind == "dir"):
                    self.rep.add("C06", "ready step not started although a job is free", "%s (%d of %d jobs busy)" % (x, n, self.jobs))
                    return
        self.rep.probe("quiet_points_judged")


# --------------------------------------------------------------------------------------------------------------- execution
def o_many(op):
    """A request for several targets in one call: as many builds, one after another."""
    return op["op"] == "many"


class Outcome(BaseException):
    """As test frameworks have them: not an Exception."""


RAISED = {"stop": StopIteration, "astop": StopAsyncIteration, "cancel": asyncio.CancelledError, "gexit": GeneratorExit, "timeout": TimeoutError, "outcome": Outcome, "exit0": lambda k: SystemExit(0),
          "text": SystemExit, "assert": AssertionError}
WAYS = ["raise", "raise", "oserror", "exit", "exit0", "text", "stop", "astop", "cancel", "gexit", "timeout", "outcome", "assert"]


class StepFailed(Exception):
    pass


class Ctx:
    """One licant process of a scenario."""

    def __init__(self, run, op, licant):
        self.run, self.op, self.licant = run, op, licant
        self.k, self.fs = run.k, run.fs
        scn = run.scn
        if scn["core"] == "mk":
            self.core = licant.make.MakeCore()
        else:
            self.core = licant.core.default_core()
        self.model = Model(scn.get("env"))
        self.dtargets = {}
        self.names = {}
        self.lists = {}

    # ---- declarations
    def declare(self, d):
        L = self.licant
        self.model.declare(d, self.fs)
        k = d["k"]
        if k in MACROS:
            from .install import declare
            declare(self, d)
            return
        mk = self.run.scn["core"] == "mk"
        core = self.core
        deps = [x[1] for x in d.get("deps", [])]
        sp = d.get("sp")
        if k == "glob":
            pat = d["spd"] + "/" + d["pat"]
            ins = [pat] + [x[1] for x in shown(d)]
            d = expand_glob(d, self.fs)
            k = d["k"]
        else:
            ins = [x[1] for x in shown(d)]
        ins, deps, both = self.share(ins), self.share(deps), self.share(deps + ins if d.get("first") else ins + deps)
        if k == "src":
            if mk:
                core.source(sp)
            else:
                L.make.source(sp)
        elif k == "dir":
            if mk:
                core.makedir(sp, core.dirkeep(sp) if d.get("form") else [])
            else:
                L.make.makedir(sp)
        elif k == "copy":
            if mk:
                core.copy(ins[0], sp, deps=deps)
            else:
                L.make.copy(sp, ins[0], adddeps=deps)
        elif k == "cmd":
            if d.get("force"):
                if mk:
                    extra = core.dirkeep(d["out"])
                    core.add(L.make.FileTarget(tgt=sp, deps=self.share(both + extra), build=L.make.Executor(rule_command(d)), use_dirkeep=False, force=True))
                else:
                    L.make.makefile(sp, both, rule_command(d), force=True)
            elif mk:
                if d.get("msg"):
                    core.ftarget(sp, exec=rule_command(d), deps=both, message="MAKE {tgt}")
                else:
                    core.ftarget(sp, exec=rule_command(d), deps=both)
            else:
                L.make.makefile(sp, both, rule_command(d))
        elif k == "func":
            fn = self.file_func(d)
            if mk:
                core.ftarget(sp, build=fn, deps=both)
            else:
                core.add(L.make.FileTarget(tgt=sp, deps=both, build=fn))
        elif k == "touch":
            core.touch(sp, content=d["content"], deps=deps)
        elif k == "fileset":
            if d.get("form"):
                L.make.fileset(d["n"], deps, core=core)
            else:
                core.add(L.make.MakeFileTarget(d["n"], deps))
        elif k == "routine":
            fn = self.plain_func(d)
            opts = {} if d["upd"] else {"update_if": lambda s: False}
            if not d.get("unnamed"):
                fn.__name__ = "work"
                opts["tgt"] = d["n"]
            make = core.routine if mk else L.core.routine
            if d.get("form"):
                make(deps=deps, **opts)(fn)
            else:
                make(fn, deps=deps, **opts)
        elif k == "upd":
            fn = self.plain_func(d)
            u = bool(d["upd"])
            core.updtarget(d["n"], deps=deps, update=fn, update_if=lambda s: u)
        elif k == "plain":
            self.dtargets[d["n"]] = L.solver.DependableTarget(name=d["n"], deps=deps, what_to_do=self.plain_func(d), args=[], kwargs={})
        else:
            raise HarnessError("unknown declaration %s" % k)

    def share(self, names):
        """A script may use one list in many places."""
        return self.lists.setdefault(tuple(names), names) if self.run.scn.get("share") else names

    # ---- user functions
    def enter(self, key, args=None):
        k = self.k
        me = k.by_ident[kernel.get_ident()]
        old = me.step
        me.step = key
        k.log("step_start", name=key, args=args)
        return me, old

    def leave(self, key, ok, me, old):
        me.step = old
        self.k.log("step_end", name=key, ok=ok)

    def nap(self, key, i):
        d = self.run.scn["durs"].get(key)
        if d and len(d) > i and d[i]:
            import time
            time.sleep(d[i])

    def outcome(self, key, d):
        f = self.run.fails.get(key)
        if not f:
            return d.get("res", None), True
        self.k.count("fault.func.%s" % f["res"])
        if f["res"] == "raise":
            raise StepFailed("step %s failed" % key)
        if f["res"] == "oserror":
            raise OSError(5, "Input/output error", key)
        if f["res"] == "exit":
            raise SystemExit(1)
        if f["res"] in RAISED:
            raise RAISED[f["res"]](key)
        return False, False

    def chat(self, key):
        n = self.run.noise.get(key)
        if n and n.get("print"):
            print("chat of %s" % key)

    def plain_func(self, d):
        key = d["n"]

        def step(*a, **kw):
            me, old = self.enter(key, [str(x) for x in a] if d["k"] == "routine" else None)
            ok = False
            try:
                self.k.yield_point("user")
                self.nap(key, 0)
                self.chat(key)
                r, ok = self.outcome(key, d)
                return r
            except SimKilled:
                raise
            finally:
                if not self.k.killed:
                    self.leave(key, ok, me, old)
        step.__name__ = key
        return step

    def file_func(self, d):
        key = d["out"]

        def step(target):
            me, old = self.enter(key)
            ok = False
            try:
                self.k.yield_point("user")
                self.nap(key, 0)
                f = self.run.fails.get(key)
                if f and f["stage"] == "before":
                    r, ok = self.outcome(key, d)
                    return r
                data = []
                for i in d["ins"]:
                    with open(i[1], "rb") as fh:
                        data.append(fh.read())
                text = gen_content("F" + d["tag"], data)
                with open(key, "wb") as fh:
                    if f and f["stage"] == "trunc":
                        r, ok = self.outcome(key, d)
                        return r
                    fh.write(text[:len(text) // 2])
                    fh.flush()
                    self.k.mark("mid")
                    self.nap(key, 1)
                    if f and f["stage"] == "partial":
                        r, ok = self.outcome(key, d)
                        return r
                    fh.write(text[len(text) // 2:])
                self.chat(key)
                r, ok = self.outcome(key, d)
                return r
            except SimKilled:
                raise
            finally:
                if not self.k.killed:
                    self.leave(key, ok, me, old)
        return step

    # ---- operations
    def perform(self, op):
        """Returns the result a caller sees: True, False, None, or an exception is raised."""
        L, core = self.licant, self.core
        via = op["via"]
        t = self.names.get(op["t"]) or op.get("sp", op["t"])
        j = op["j"]
        if self.run.scn["core"] == "solver":
            s = L.solver.InverseRecursiveSolver(list(self.dtargets.values()), count_of_threads=j, trace=bool(op.get("flags")))
            return s.exec()
        act = "clean" if op["op"] == "clean" else None
        if via == "cli":
            argv = list(op.get("flags", []))
            if j is not None:
                argv += ["-j", str(j)]
            if op.get("deflt"):
                L.cli.cliexecute(default=t, core=core, argv=argv + ([act] if act else []))
            else:
                argv.append(t)
                if act:
                    argv.append(act)
                L.cli.cliexecute(core=core, argv=argv + op.get("args", []))
            return "cli"
        if j is not None and not op.get("byarg"):
            core.runtime["threads"] = j
        if "-q" in op.get("flags", ()):
            core.runtime["quite"] = True
        if o_many(op):
            ts = [t] + [self.names.get(x) or x for x in op["more"]]
            return (core.do if self.run.scn["core"] == "mk" else L.core.do)(tuple(ts) if op.get("form") else ts)
        if via == "do":
            t = [t, [t], core.get(t), (t,)][op.get("form", 0)] if op.get("form") else t
            do = core.do if self.run.scn["core"] == "mk" else L.core.do
            kw = {"kwargs": {"threads": j}} if op.get("byarg") else {}
            if op.get("args"):
                return do(t, act, args=op["args"], **kw)
            return do(t, act, **kw)
        tgt = core.get(t)
        if via == "invoke" or act:
            return tgt.invoke(act or tgt.default_action)
        if via == "recurse":
            if j is not None:
                return tgt.invoke("recurse_update", kwargs={"threads": j})
            return tgt.invoke("recurse_update")
        raise HarnessError("via %s" % via)


class Run:
    def __init__(self, scn, chooser):
        self.scn = scn
        self.rep = Report()
        cfg = dict(scn.get("cfg", {}))
        self.sim = Sim(chooser, cfg)
        self.k, self.fs = self.sim.k, self.sim.fs
        self.k.cmd_plan = self.cmd_plan
        self.fails = {}
        self.noise = {}
        self.tracker = None
        self.torn = set()
        self.writing = set()
        self.torn_pos = 0
        self.killed_before = False
        self.bad_before = False
        self.lateness = {}
        self.kf = set()

    def cmd_plan(self, proc):
        key = next((o for o in proc.outs), None)
        plan = {}
        d = self.scn["durs"].get(key)
        if d:
            plan["dur"] = d
        n = self.noise.get(key)
        if n:
            if n.get("out"):
                plan["out"] = noise_bytes("%s#%d" % (key, proc.pid), "out", n["out"])
            if n.get("err"):
                plan["err"] = noise_bytes("%s#%d" % (key, proc.pid), "err", n["err"])
            plan["turns"] = n.get("turns")
        f = self.fails.get(key)
        if f:
            plan["fail"] = f
        return plan

    # ---- user actions
    def advance_clock(self):
        gran = self.k.cfg.get("mtime_gran", 1)
        self.k.now_ns += 2 * gran + 2_000_000

    def user(self, op):
        fs = self.fs
        self.advance_clock()
        p = op["p"]
        if op["op"] == "edit":
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, op["c"])
        elif op["op"] == "touch":
            if fs._exists(p):
                fs._find(p).mtime = fs.stamp()
        elif op["op"] == "del":
            if fs._exists(p):
                fs._unlink(p)
                self.torn.discard(p)
        elif op["op"] == "rmdir":
            if fs._exists(p):
                fs._rmtree(p)
        self.k.log("user", op=op["op"], path=p)
        self.advance_clock()

    DECLARES = ("C05",)

    def snapshot(self):
        files, dirs = {}, set()
        for root in self.scn.get("roots", [W]):
            if not self.fs._exists(root):
                continue
            f, d = self.fs._tree(root)
            files.update(f)
            dirs |= d
        mt = {p: self.fs._find(p).mtime for p in files}
        return files, dirs, mt

    def stat(self, p):
        try:
            return self.fs._find(p).mtime / 1e9
        except OSError:
            return None

    # ---- processes
    def process(self, op):
        k, rep = self.k, self.rep
        self.fails = op.get("fail", {})
        self.noise = op.get("noise", {})
        faults = Faults(self.sim, op.get("fsfault"), op.get("foreign"))
        k.fault = faults
        k.triggers = []
        if op.get("interrupt"):
            t = op["interrupt"]
            if t[0] == "start":
                k.triggers = []
                k.interrupt_at = k.ch.points + t[2]
            else:
                k.triggers.append(["interrupt", t[0], t[1], t[2]])
        if op.get("crash"):
            t = op["crash"]
            if t[0] == "start":
                k.crash_at = k.ch.points + t[2]
            else:
                k.triggers.append(["crash", t[0], t[1], t[2]])

        def on_int():
            if op.get("sigint_cmds") == "die":
                for p in list(k.procs):
                    p.kill(2)
        k.on_interrupt = on_int
        k.on_quiescent = self.on_quiet
        state = {"i": -1, "info": [], "ctx": None}
        self.first = len(k.events)

        def body(licant):
            if op.get("stdout_fail") is not None:
                k.out.fail_after = op["stdout_fail"]
                k.out.err = op.get("stdout_err", 32)
            ctx = state["ctx"] = Ctx(self, op, licant)
            for i, d in enumerate(self.scn["decls"]):
                if not d.get("late") or i in op.get("declared", ()):
                    ctx.declare(d)
            state["declared"] = True
            r = None
            for i, o in enumerate(op["ops"]):
                state["i"] = i
                r = self.one(ctx, o, state, licant)
            return r
        res = self.sim.process(body, cwd=W, env=self.scn.get("env"))
        if res.why == "crash":
            self.killed_before = self.bad_before = True
            if op.get("crash_mode") == "group":
                for p in list(k.procs):
                    p.kill(9)
            rep.probe("killed_with_commands_running" if k.procs or any(e["ev"] == "torn" for e in k.events[res.first:]) else "killed")
        k.drain()
        k.fault = None
        k.on_quiescent = None
        k.on_interrupt = None
        k.out = None
        self.after(op, res, state)
        self.advance_clock()
        return res

    def on_quiet(self):
        if self.tracker is not None:
            self.tracker.quiet()

    def one(self, ctx, o, state, licant):
        k = self.k
        if o["op"] == "declare":
            ctx.declare(self.scn["decls"][o["i"]])
            return None
        if o["op"] in ("edit", "touch", "del"):
            self.user(o)
            licant.cache.fcache.update_info(licant.util.canonical_path(o["p"]))
            return None
        model = ctx.model
        info = {"op": o, "before": self.snapshot(), "model": _copy.copy(model), "first": len(k.events), "i": state["i"]}
        info["model"].nodes = dict(model.nodes)
        self.scan_torn()
        info["torn"] = set(self.torn)
        # `tr` judges this operation; a clean is judged by its effects only
        if o["op"] == "build":
            tr = info["tracker"] = Tracker(self.rep, k, info["model"], o["t"], o["j"] if o["j"] is not None or o["via"] == "cli" else None, self.stat, o)
            if o["via"] == "cli" and o["j"] is None:
                tr.jobs = k.cfg.get("cpus", 8)
            if (o["j"] is None or o.get("byarg") and any(x.get("j") is not None and not x.get("byarg") for x in self.cur_ops[:state["i"]])) and o["via"] != "cli":
                tr.jobs = None
            tr.stdout_fault = any(e["ev"] == "stdout_fault" for e in k.events[self.first:])
            self.tracker = tr
        state["info"].append(info)
        k.log("op_start", op=o["op"], target=o["t"])
        r = None
        try:
            r = ctx.perform(o)
            info["result"] = r
        except SimKilled:
            raise
        except BaseException as e:
            info["exc"] = e
            if o["via"] == "cli" or isinstance(e, KeyboardInterrupt) or state["i"] == len(self.cur_ops) - 1:
                raise
        finally:
            if not k.killed:
                k.log("op_end", op=o["op"])
                if self.tracker is not None:
                    self.tracker.feed()
                    info["running_at_end"] = dict(self.tracker.running)
                    if o["via"] != "cli":
                        self.tracker.over = True
                info["ended"] = True
                info["last"] = len(k.events)
                info["after"] = self.snapshot()
        return r

    # ---- judgement
    def after(self, op, res, state):
        rep, k = self.rep, self.k
        tr = self.tracker
        if tr is not None:
            tr.feed()
            tr.over = True
        self.tracker = None
        ev = k.events[res.first:]
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        if res.why == "deadlock":
            rep.add("C03", "the build never returns: nothing can run any more", str([e["blocked"] for e in ev if e["ev"] == "deadlock"][-1:]), key="hang")
        elif res.why == "no-progress":
            rep.add("C03", "the build never returns: it spins", key="hang")
        interrupted = any(e["ev"] == "interrupt" for e in ev)
        delivered = any(e["ev"] == "interrupt_delivered" for e in ev)
        if res.why in ("deadlock", "no-progress"):
            if interrupted:
                rep.add("C17", "the process does not terminate after the interrupt", key="hang")
            self.bad_before = True
        if interrupted:
            self.bad_before = True
            told = any(i.get("result") is False or i.get("exc") and not (isinstance(i["exc"], SystemExit) and not i["exc"].code) for i in state["info"])
            if delivered and res.code == 0 and not told:
                rep.add("C17", "exit status 0 after an interrupt")
            rep.probe("interrupted")
            if delivered and tr is not None and tr.steps:
                rep.probe("interrupted_inside_build")
        if not state.get("declared") and res.why is None and not interrupted and not any(
                e["ev"] in ("fs_fault", "stdout_fault", "foreign_mkdir") for e in ev):
            for p in self.DECLARES:
                rep.add(p, "the declarations are refused although nothing is wrong", "%s %s" % (res.exc, res.text(1)[-150:]))
        for info in state["info"]:
            self.judge(op, res, state, info, interrupted)
        # what a killed process left half-written
        self.scan_torn()
        if res.why == "crash":
            for p in sorted(self.writing):
                self.torn.add(p)
                rep.probe("torn_by_kill")
        self.writing.clear()

    def scan_torn(self):
        """Follow which outputs are being written, and which torn ones have been written anew."""
        ev = self.k.events
        while self.torn_pos < len(ev):
            e = ev[self.torn_pos]
            self.torn_pos += 1
            t = e["ev"]
            if t == "cmd_start":
                self.writing.update(e["outs"])
            elif t == "cmd_end":
                if e["rc"] == 0:
                    self.whole(e["outs"])
                else:
                    self.writing.update(e["outs"])
            elif t == "open_w":
                self.writing.add(e["path"])
            elif t == "close_w":
                if e["actor"][1] is None:
                    self.whole([e["path"]])
            elif t == "step_start" and e["name"].startswith("/"):
                self.writing.add(e["name"])
            elif t == "step_end" and e["name"].startswith("/"):
                if e["ok"]:
                    self.whole([e["name"]])
                else:
                    self.writing.add(e["name"])

    def whole(self, paths):
        for p in paths:
            self.writing.discard(p)
            self.torn.discard(p)

    def judge(self, op, res, state, info, interrupted):
        rep, k = self.rep, self.k
        o = info["op"]
        model = info["model"]
        last = info is state["info"][-1]
        ended = info.get("ended", False)
        tr = info.get("tracker")
        before = info["before"]
        after = info.get("after") or self.snapshot()
        try:
            tree = model.tree(o["t"])
            for x in o.get("more", ()):
                tree += [y for y in model.tree(x) if y not in tree]
        except Missing:
            tree = []
        outs = {x for x in tree if model.nodes[x].kind in FILE_KINDS}
        if o["op"] == "uninstall":
            outs = set(model.nodes[o["t"]].decl["weak"])
            tree = []
        alldirs = {x for x in tree if model.nodes[x].kind == "dir"}
        foreign = {e["path"] for e in k.events[info["first"]:] if e["ev"] == "foreign_mkdir"}
        # -- footprint
        bf, bd, bm = before
        af, ad, am = after
        for p in sorted(set(bf) | set(af)):
            if bf.get(p) != af.get(p) or bm.get(p) != am.get(p):
                if p not in outs:
                    what = "removed" if p not in af else "created" if p not in bf else "modified"
                    kind = "source" if model.nodes.get(p) is not None and model.nodes[p].kind == "src" else "file outside the tree of the target"
                    rep.add("C10", "%s was %s" % (kind, what), p)
        for d in sorted(bd ^ ad):
            if d not in alldirs and not any(f == d or f.startswith(d + "/") for f in foreign):
                rep.add("C10", "directory was %s" % ("removed" if d in bd else "created"), d)
        if o["op"] in ("clean", "uninstall"):
            ok = ended and res.why is None and not interrupted and not info.get("exc")
            if ok and not any(e["ev"] in ("fs_fault", "stdout_fault") for e in k.events[info["first"]:]):
                left = [p for p in sorted(outs) if p in af]
                rmfault = any(e["ev"] == "cmd_end" and e["rc"] != 0 for e in k.events[info["first"]:])
                if rmfault:
                    rep.probe(o["op"] + "_with_failing_rm")
                    told = bool(res.code) if o["via"] == "cli" and last else info.get("result") is False
                    if left and not told:
                        rep.add("C10", o["op"] + " reports success although it could not remove a file", left[0])
                elif left:
                    rep.add("C10", "generated file left behind by " + o["op"], left[0])
                if any(p in bf for p in outs):
                    rep.probe("clean_removed_files" if o["op"] == "clean" else "uninstall_removed_files")
            elif ended and res.why is None and not interrupted and not any(e["ev"] in ("fs_fault", "stdout_fault") or e["ev"] == "cmd_end" and e["rc"] != 0 for e in k.events[info["first"]:]):
                rep.add("C10", o["op"] + " fails although nothing is wrong", "%r" % (info.get("exc"),))
            return
        if o_many(o):
            self.judge_many(info, tree, bf, af, ended and res.why is None and not interrupted)
            return
        # -- build
        full = ended and res.why is None
        rc = info.get("result")
        exc = info.get("exc")
        if o["via"] == "cli":
            if res.code is None:
                full = False
            reported = not res.code
        else:
            reported = exc is None and rc is not False
            if reported and rc is None and self.scn["core"] != "solver":
                reported = True
        if any(e["ev"] == "stdout_fault" for e in k.events[res.first:res.last]):
            tr.stdout_fault = True      # the stream stays broken for the rest of the process
        faulted = tr.faulted or tr.stdout_fault
        events = k.events[info["first"]:res.last]
        failed = list(tr.failed)
        if not full:
            return
        if interrupted:
            return
        if info.get("running_at_end"):
            rep.add("C04", "build returned while a step was still running", str(sorted(info["running_at_end"])))
        rep.probe("builds_success" if reported else "builds_failed")
        text = res.text(1) + res.text(2)
        if not faulted:
            self.check_relay(res, events, info)
        if failed:
            self.bad_before = True
            if reported and not tr.stdout_fault:
                rep.add("C05", "success reported although a step failed", failed[0])
            elif not tr.stdout_fault and not any(self.named(model, f, text) for f in (tree if faulted else failed)):
                rep.add("C05", "no failing target named in the output", failed[0])
            return
        if faulted:
            self.bad_before = True
            if tr.faulted and reported and not tr.stdout_fault and self.relevant_fault(tr, events):
                rep.add("C05", "success reported although a step failed", str(tr.last_fault))
                return
            if not reported:
                return
            rep.probe("faults_survived")
        missing_src = [x for x in tree if model.nodes[x].kind == "src" and x not in bf]
        if not reported:
            self_inflicted = missing_src
            if not self_inflicted:
                rep.add("C05", "failure reported although no step failed", "%s %r" % (res.exc, exc), key="spurious-failure")
                if self.bad_before:
                    rep.add("C09", "the build after a failed or stopped one does not succeed", "%s" % (res.exc or exc,))
                if any(e["ev"] == "foreign_mkdir" for e in events):
                    rep.add("C13", "a directory created by somebody else makes the build fail", "%s" % (res.exc or exc,))
            return
        # -- success
        for x in tr.need_obs:
            if x not in tr.steps:
                rep.add("C02", "out-of-date step was not executed in a successful build", x)
        if not tr.need_obs:
            rep.probe("null_builds")
        elif len(tr.need_obs) < sum(model.nodes[x].observable for x in tree):
            rep.probe("partial_rebuilds")
        memo = {}
        wrong = []
        for x in tree:
            if model.nodes[x].kind not in FILE_KINDS:
                continue
            try:
                want = model.content(x, lambda p: af.get(p), memo)
            except Missing:
                rep.add("C05", "success reported although an input is missing", x)
                continue
            if af.get(x) != want:
                wrong.append(x)
        if wrong:
            roots = [x for x in wrong if x in info["torn"]]
            explained = set(roots)
            for x in tree:
                if x in wrong and any(d in explained for d in model.tree(x)):
                    explained.add(x)
            rest = [x for x in wrong if x not in explained]
            if rest:
                what = "output differs from a clean build" if rest[0] in af else "output missing after success"
                if not self.killed_before:
                    rep.add("C07", what, rest[0])
                if self.bad_before:
                    rep.add("C09", what, rest[0])
            elif wrong:
                rep.known.append(("C09", "torn-output-after-kill", roots))

    def judge_many(self, info, tree, bf, af, full):
        """Several targets asked for in one call: it succeeds exactly when each of the builds does."""
        rep, model = self.rep, info["model"]
        events = self.k.events[info["first"]:info.get("last")]
        if not full or any(e["ev"] in ("fs_fault", "spawn_fault", "stdout_fault", "foreign_mkdir") for e in events):
            self.bad_before = True
            return
        reported = info.get("exc") is None and info.get("result") is not False
        failed = [e.get("name") or e["cmd"] for e in events if e["ev"] == "step_end" and not e["ok"] or e["ev"] == "cmd_end" and e["rc"] != 0 and e["step"] is None]
        rep.probe("several_targets_success" if reported else "several_targets_failed")
        if failed:
            self.bad_before = True
            if reported:
                rep.add("C05", "success reported for several targets although a step failed", str(failed[0]))
            return
        if not reported:
            if not [x for x in tree if model.nodes[x].kind == "src" and x not in bf]:
                rep.add("C05", "failure reported although no step failed", "%r" % (info.get("exc"),), key="spurious-failure")
            return
        for x in tree:
            if model.nodes[x].kind in FILE_KINDS and x not in af:
                rep.add("C02", "success reported for several targets although an output is missing", x)
                break

    def relevant_fault(self, tr, events):
        return any(e["ev"] == "fs_fault" and e["op"] in ("mkdir", "write", "open_w", "spawn") for e in events)

    def named(self, model, key, text):
        names = {key, key.replace(W + "/", "", 1)}
        n = model.nodes[key]
        if n.decl is not None and n.decl.get("sp"):
            names.add(n.decl["sp"])
        return any(x in text for x in names)

    def check_relay(self, res, events, info):
        rep = self.rep
        text = res.out.text(1)
        for e in events:
            if e["ev"] != "cmd_end" or e["step"] is not None:
                continue
            for stream in ("out", "err"):
                b = e[stream]
                if not b:
                    continue
                n = relayed(b, text)
                rep.probe("blocks_relayed")
                if len(b) > 65536:
                    rep.probe("big_blocks_relayed")
                if n == 0:
                    parts = [l for l in b.split(b"\n") if l]
                    some = sum(relayed(l, text) > 0 for l in parts)
                    what = "output of a command is torn apart or mixed with other output" if some == len(parts) else "output of a command is missing"
                    rep.add("C11", what, "%s %s" % (e["cmd"][:60], stream))
                elif n > 1 and b"<" in b:
                    rep.add("C11", "output of a command appears more than once", e["cmd"][:60])


def split(scn):
    """The same history with every operation in a process of its own."""
    s = _copy.deepcopy(scn)
    hist = []
    declared = []
    for op in s["history"]:
        if op["op"] != "proc":
            hist.append(op)
            continue
        rest = {a: b for a, b in op.items() if a != "ops"}
        mine = list(op.get("declared", []))
        for o in op["ops"]:
            if o["op"] == "declare":
                mine.append(o["i"])
            elif o["op"] in ("edit", "touch", "del"):
                hist.append(o)
            else:
                q = _copy.deepcopy(rest)
                q["ops"] = [o]
                q["declared"] = list(mine)
                hist.append(q)
    s["history"] = hist
    return s


def is_multi(scn):
    return any(op["op"] == "proc" and len(op["ops"]) > 1 for op in scn["history"])


def judge_sessions(scn, rep):
    """C18: what goes wrong only because several operations share a process."""
    if not is_multi(scn):
        return
    rep.probe("sessions")
    own = {v.prop for v in rep.violations}
    if not own:
        return
    ref = set()
    sp = split(scn)
    for seed in (None, 11, 12, 13):
        ch = Chooser(seed, script={} if seed is None else None, strategy={"kind": "uniform"})
        r = run(sp, ch, sessions=False)
        ref |= {v.prop for v in r.violations}
    for v in list(rep.violations):
        if v.prop not in ref:
            rep.add("C18", "goes wrong only in a process that did other operations before: " + v.what, v.detail, key=v.key)
            break


def run(scn, chooser, sessions=True):
    r = Run(scn, chooser)
    rep = r.rep
    k, fs = r.k, r.fs
    try:
        for d in scn.get("dirs", []):
            fs._mkdirs(d)
        for p in sorted(scn["init"]):
            fs._mkdirs(posixpath.dirname(p))
            fs._write(p, scn["init"][p])
        if scn.get("linked"):
            fs._mkdirs(posixpath.dirname(LINK))
            fs.symlink(W, LINK)
        r.advance_clock()
        for op in scn["history"]:
            if op["op"] == "proc":
                r.cur_ops = op["ops"]
                r.process(op)
                if k.unsupported:
                    rep.skip(k.unsupported)
                    break
                if any(v.key == "hang" for v in rep.violations):
                    break
            else:
                r.user(op)
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    if sessions:
        judge_sessions(scn, rep)
    rep.nontrivial = k.stats.get("switches", 0) > 0 and bool(k.stats.get("commands", 0) or any(e["ev"] == "step_start" for e in k.events))
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
def gen(rng, prof):
    """A scenario, by profile."""
    core = rng.choice(prof.get("cores", ["mk", "mk", "default", "mk"]))
    if core == "solver" or (core == "graph"):
        return gen_graph(rng, prof, core)
    return gen_files(rng, prof, core)


def gen_cfg(rng, prof):
    cfg = {"mtime_gran": rng.choice([1, 1, 1000, 1_000_000, 10_000_000, 1_000_000_000]), "dirsalt": rng.randrange(1000), "hashsalt": rng.randrange(1 << 30),
           "tick": rng.choice([1000, 1000, 100_000]), "cpus": rng.choice([4, 8, 8, 16]), "line": False}
    if rng.random() < 0.3:
        cfg["pipe_cap"] = rng.choice([512, 4096])
    if rng.random() < 0.2:
        cfg["short_writes"] = True
    return cfg


def gen_durs(rng, keys):
    style = rng.choice(["none", "equal", "random", "random", "one-slow"])
    durs = {}
    slow = rng.choice(keys) if keys else None
    slowest = rng.choice([[5, 1, 0], [5, 1, 0], [40, 400, 0], [4000, 10, 7]])
    for x in keys:
        if style == "equal":
            durs[x] = [0.1, 0.1, 0]
        elif style == "random":
            durs[x] = [rng.choice([0, 0.05, 0.1, 0.5, 1]), rng.choice([0, 0, 0.1, 0.3]), rng.choice([0, 0, 0.1])]
        elif style == "one-slow" and x == slow:
            durs[x] = slowest
        elif style == "one-slow":
            durs[x] = [0.1, 0, 0]
    return durs


def gen_graph(rng, prof, core):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12])
    shape = rng.choice(["random", "random", "chain", "fan", "diamond", "layers"])
    quiet = rng.choice([0.2, 0.2, 0.2, 0.6, 0.9])
    if rng.random() < 0.02:     # one thing to do among many
        n = rng.choice([8, 12, 20, 40])
        shape = rng.choice(["fan", "fan", "random", "layers"])
        quiet = 1
    if rng.random() < 0.04:
        n = rng.choice([16, 24, 34, 48, 70, 140])
        shape = rng.choice(["random", "chain", "fan", "fan", "diamond", "layers", "ladder", "ladder"])
        quiet = rng.choice([0, 0.2, 0.2, 1])
    decls = []
    for i in range(n):
        if shape == "chain":
            deps = [i - 1] if i else []
        elif shape == "fan":
            deps = list(range(n - 1)) if i == n - 1 else []
        elif shape == "diamond":
            deps = [] if i == 0 else [0] if i < n - 1 else list(range(1, n - 1))
        elif shape == "ladder":
            deps = [j for j in (i // 2 * 2 - 2, i // 2 * 2 - 1) if j >= 0]
        elif shape == "layers":
            w = 3
            lay = i // w
            deps = [j for j in range((lay - 1) * w, lay * w) if j >= 0 and rng.random() < 0.7] if lay else []
        else:
            deps = [j for j in range(max(0, i - 40), i) if rng.random() < rng.choice([0.2, 0.5])]
        kind = "plain" if core == "solver" else rng.choice(["upd", "routine"]) if prof.get("mixed", 1) else "upd"
        d = {"k": kind, "n": "t%d" % i, "deps": [["t%d" % j, "t%d" % j] for j in deps], "res": rng.choice([None, None, True, 1, 0, "", "done"])}
        if kind in ("routine", "upd"):
            d["upd"] = 0 if rng.random() < quiet else 1
            if kind == "routine" and rng.random() < 0.3:
                d["unnamed"] = 1
        decls.append(d)
    if quiet == 1:
        for d in decls:
            if "upd" in d and rng.random() < 1.2 / n:
                d["upd"] = 1
    order = list(range(n))
    if rng.random() < 0.2:
        order.reverse()
    else:
        rng.shuffle(order)
    decls = [decls[i] for i in order]
    names = [d["n"] for d in decls]
    # the target everything is reachable from, or any
    top = "t%d" % (n - 1) if rng.random() < 0.6 or core == "solver" else rng.choice(names)
    if core == "solver" and len(Tree(decls, top)) != n:
        # the solver runs the whole list: give it one root
        decls.append({"k": "plain", "n": "root", "deps": [[x, x] for x in sorted(names)], "res": None})
        names.append("root")
        top = "root"
    scn = {"family": "build", "core": "solver" if core == "solver" else rng.choice(["mk", "default"]), "decls": decls, "init": {}, "dirs": [], "durs": gen_durs(rng, names),
           "cfg": gen_cfg(rng, prof), "history": []}
    nproc = 1 if rng.random() < 0.7 else 2
    for i in range(nproc):
        p = {"op": "proc", "ops": [gen_build(rng, prof, top, top, core)]}
        if core != "solver" and rng.random() < prof.get("session", 0.2):
            p["ops"].insert(0, gen_build(rng, prof, rng.choice(names), None, core, last=False))
        gen_proc_faults(rng, prof, scn, p, [x for x in names])
        scn["history"].append(p)
    return scn


def Tree(decls, top):
    by = {d["n"]: d for d in decls}
    seen = set()

    def go(x):
        if x not in seen:
            seen.add(x)
            for y in by[x]["deps"]:
                go(y[0])
    go(top)
    return seen


def gen_build(rng, prof, t, sp, core, last=True):
    j = rng.choice(prof.get("jobs", [1, 2, 2, 3, 4, 8]))
    via = rng.choice(["cli", "cli", "do", "invoke", "recurse"]) if last else rng.choice(["do", "invoke", "recurse"])
    o = {"op": "build", "t": t, "sp": sp if sp is not None else t, "j": j, "via": via}
    if core == "solver":
        o["via"] = "solver"
        return o
    if via != "cli" and rng.random() < 0.1:
        o["j"] = None
    if via == "cli":
        f = []
        if rng.random() < 0.15:
            f.append("-t")
        if rng.random() < 0.15:
            f.append("-d")
        if rng.random() < 0.15:
            f.append("-q")
        o["flags"] = f
        if rng.random() < 0.4:
            o["deflt"] = True
        if rng.random() < 0.1:
            o["j"] = None
    elif rng.random() < 0.1:
        o["flags"] = ["-q"]
    if via == "do":
        o["form"] = rng.choice([0, 0, 0, 1, 2, 3])
    if o["j"] and rng.random() < 0.3 and (via == "recurse" or via == "do" and t.startswith("rt")):
        o["byarg"] = 1          # asked for in the call, unless the process has a number of jobs set
    if t.startswith("rt") and via in ("cli", "do") and not o.get("deflt") and rng.random() < 0.5:
        o["args"] = rng.choice([["x"], ["x", "y"], ["7"]])
    return o


MARKS = ["cmd_start", "mid", "cmd_end", "step_start", "step_end", "open_w", "close_w", "print", "op_start", "fs"]


def gen_trigger(rng):
    if rng.random() < 0.25:
        return ["start", 1, rng.choice([rng.randrange(60), rng.randrange(400), rng.randrange(4000)])]
    return [rng.choice(MARKS), rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([0, 0, 1, 2, 5, rng.randrange(40), rng.randrange(200)])]


def gen_proc_faults(rng, prof, scn, p, keys, final=False):
    by = {key_of(d): d for d in scn["decls"]}
    if keys and not final and rng.random() < prof.get("fail", 0.3):
        f = {}
        for x in rng.sample(keys, min(len(keys), rng.choice([1, 1, 1, 2, 3]))):
            kind = by[x].get("as", by[x]["k"])
            if kind in ("copy", "cmd"):
                f[x] = {"stage": rng.choice(["before", "trunc", "partial", "partial", "after"]), "rc": rng.choice([1, 1, 2, 64, 126, 127, 128, 130, 192, 255])}
                if rng.random() < 0.25:
                    f[x]["sig"] = rng.choice([6, 9, 11, 13, 15])
            elif kind == "func":
                f[x] = {"stage": rng.choice(["before", "trunc", "partial", "partial", "after"]), "res": rng.choice(["False", "raise", "oserror", "exit"] + WAYS)}
            elif kind in ("routine", "upd", "plain"):
                f[x] = {"stage": "before", "res": rng.choice(["False", "False", "False", "raise", "oserror", "exit"] + WAYS)}
        if f:
            p["fail"] = f
    if rng.random() < prof.get("noise", 0.15):
        nz = {}
        for x in keys:
            kind = by[x].get("as", by[x]["k"])
            if kind in ("copy", "cmd") and rng.random() < 0.6:
                sz = rng.choice([[1, 10], [3, 40], [20, 60], [60, 100], [900, 80], [3000, 100]]) if prof.get("big", True) else [3, 40]
                nz[x] = {}
                if rng.random() < 0.8:
                    nz[x]["out"] = [sz[0], sz[1], rng.randrange(8)]
                if rng.random() < 0.5:
                    sz = rng.choice([[1, 10], [3, 40], [20, 60], [900, 80]])
                    nz[x]["err"] = [sz[0], sz[1], rng.randrange(8)]
                if rng.random() < 0.3:
                    nz[x]["turns"] = 1
            elif kind in ("routine", "upd", "func", "plain") and rng.random() < 0.5:
                nz[x] = {"print": 1}
        if nz:
            p["noise"] = nz
    if rng.random() < prof.get("foreign", 0.1):
        p["foreign"] = [rng.choice([1, 1, 2, 3])]
    if final:
        return
    if rng.random() < prof.get("interrupt", 0.0):
        p["interrupt"] = gen_trigger(rng)
        p["sigint_cmds"] = rng.choice(["die", "ignore"])
    elif rng.random() < prof.get("crash", 0.0):
        p["crash"] = gen_trigger(rng)
        p["crash_mode"] = rng.choice(["proc", "group"])
    elif rng.random() < prof.get("fsfault", 0.05):
        op = rng.choice(["mkdir", "write", "open_w", "spawn", "spawn", "cmd_write", "cmd_read", "stat" if prof.get("statfault") else "spawn"])
        if any(o["op"] in ("clean", "uninstall") for o in p["ops"]):
            op = rng.choice([op, "cmd_unlink", "cmd_unlink", "unlink"])
            if op == "unlink" and any(o["op"] == "build" for o in p["ops"]):
                op = "cmd_unlink"
        p["fsfault"] = [{"op": op, "n": rng.choice([1, 1, 2, 3]), "err": {"spawn": rng.choice(["EAGAIN", "ENOMEM"])}.get(op, rng.choice(["ENOSPC", "EIO", "EACCES"]))}]
    elif rng.random() < prof.get("stdout", 0.0):
        p["stdout_fail"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
        p["stdout_err"] = rng.choice([32, 28])


def gen_files(rng, prof, core):
    nsrc = rng.choice([1, 1, 2, 3, 4])
    nrule = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    big = rng.random() < 0.03
    if big:
        nrule = rng.choice([12, 18, 26, 40])
    ladder = big and rng.random() < 0.5
    broad = not big and rng.random() < 0.02
    if broad:
        nrule = rng.choice([10, 18, 24, 40])
    srcs = [W + "/" + n for n in rng.choice([["a.txt", "b.txt", "src/c.txt", "src/deep/d.txt"]] * 3 + [["a.txt", "a.in", "src/a.txt", "src/a.in"]])[:nsrc]]
    odirs = ["", "", "o", "o", "o/x", "o/y/z", "p", "src"]
    spelled = rng.random() < 0.5
    hows = 6 if rng.random() < prof.get("linked", 0.2) else 5

    def sp(path):
        return spell(path, rng.randrange(hows) if spelled else 0)
    decls = []
    outs = []
    names = []
    plain = []
    style = rng.choice(["r%d"] * 6 + ["s.r%d", "r.%d.o", "k%d/m", "k%d.x/m.o"])
    sdirs = rng.sample([W + "/q", W + "/o/x", W + "/p", W + "/q/d/e"], rng.choice([1, 2])) if rng.random() < 0.15 else []
    for x in sdirs:
        decls.append({"k": "dir", "p": x, "sp": sp(x), "form": rng.randrange(2)})
    for i in range(nrule):
        d = rng.choice(odirs)
        out = normal(W + "/" + d + "/" + style % i)
        kinds = ["copy", "cmd", "cmd", "func"] + (["touch"] if core == "mk" else [])
        k = rng.choice(kinds if not broad or i < nrule - 1 else ["cmd", "func"])
        pool = srcs + outs * 2
        if k == "touch":
            ins = []
        elif k == "copy":
            ins = [rng.choice(pool if not broad else srcs)]
        else:
            ins = []
            wide = rng.random() < (0.3 if big else 0.02)
            for _ in range(rng.choice([12, 20, 40]) if wide else rng.choice([1, 1, 2, 3])):
                x = rng.choice(pool)
                if x not in ins:
                    ins.append(x)
        if broad and k in ("cmd", "func"):
            ins = [rng.choice(srcs)] if i < nrule - 1 else list(outs)
        if ladder and i > 1 and k in ("cmd", "func"):
            j = i // 2 * 2
            ins = outs[j - 2:j]
        dd = {"k": k, "out": out, "sp": sp(out), "ins": [[x, sp(x)] for x in ins], "tag": "R%d" % i, "deps": []}
        if k == "touch":
            dd["content"] = rng.choice(["", "stamp%d\n" % i])
        if k == "cmd":
            dd["tmpl"] = rng.choice([0, 0, 1, 2, 3 if len(ins) == 1 else 0, 4] if not big else [0, 2])
            if rng.random() < 0.12:
                dd["force"] = 1
            if rng.random() < 0.5:
                dd["msg"] = 1
        if k == "func":
            dd["res"] = rng.choice([None, True, 1])
        if broad:
            pass
        elif names and rng.random() < 0.3:
            x = rng.choice(names)
            dd["deps"].append([x, x])
        elif outs and rng.random() < 0.2:
            x = rng.choice(outs)
            if x not in ins:
                dd["deps"].append([x, sp(x)])
        if sdirs and k != "touch" and rng.random() < 0.6:
            for x in rng.sample(sdirs, rng.randrange(1, len(sdirs) + 1)):
                dd["deps"].insert(rng.randrange(len(dd["deps"]) + 1), [x, sp(x)])
            if rng.random() < 0.6:
                dd["first"] = 1
        if k in ("cmd", "func") and ins and rng.random() < (0.2 if not broad else 0):
            # some inputs are named by a file set, perhaps one inside another
            hid = rng.sample(dd["ins"], rng.choice([1, len(dd["ins"])]))
            mem = [list(x) for x in hid]
            for lv in range(rng.choice([1, 1, 2, 2, 3])):
                for x in rng.sample(srcs + outs, rng.choice([0, 0, 1])):
                    if x not in [y[0] for y in mem]:
                        mem.insert(rng.randrange(len(mem) + 1), [x, sp(x)])
                nm = "in%d_%d" % (i, lv)
                decls.append({"k": "fileset", "n": nm, "deps": mem, "form": rng.randrange(2)})
                mem = [[nm, nm]]
            for x in hid:
                x.append(1)
            dd["deps"].append([nm, nm])
            if rng.random() < 0.3:
                names.append(nm)
        decls.append(dd)
        outs.append(out)
        if rng.random() < 0.2:
            mem = rng.sample(outs, min(len(outs), rng.choice([1, 2, 3])))
            nm = "set%d" % i
            decls.append({"k": "fileset", "n": nm, "deps": [[x, sp(x)] for x in mem], "form": rng.randrange(2)})
            names.append(nm)
        if rng.random() < prof.get("routines", 0.12):
            kind = rng.choice(["routine", "upd"])
            nm = ("rt%d" if kind == "routine" else "up%d") % i
            mem = rng.sample(outs, min(len(outs), rng.choice([0, 1, 2])))
            decls.append({"k": kind, "n": nm, "deps": [[x, sp(x)] for x in mem], "upd": rng.choice([0, 0, 1]), "res": rng.choice([None, True])})
            if kind == "routine":
                decls[-1]["form"] = rng.randrange(2)
                if rng.random() < 0.3:
                    decls[-1]["unnamed"] = 1
            names.append(nm)
            plain.append(nm)
    if ladder and rng.random() < 0.5:
        # file sets of file sets, with very many paths through them
        low = [srcs[0], outs[0]]
        for i in range(rng.choice([4, 8, 16, 24])):
            pair = ["fl%da" % i, "fl%db" % i]
            for nm in pair:
                decls.append({"k": "fileset", "n": nm, "deps": [[x, sp(x)] for x in low], "form": rng.randrange(2)})
            low = pair
        out = W + "/o/fl"
        decls.append({"k": "cmd", "out": out, "sp": sp(out), "ins": [[srcs[0], sp(srcs[0]), 1]], "tag": "FL", "tmpl": 0, "deps": [[x, x] for x in low]})
        outs.append(out)
    wild = []
    if core == "default" and rng.random() < prof.get("globs", 0.15):
        for i in range(rng.choice([1, 1, 2])):
            g = rng.choice([W + "/g", W + "/g", W + "/g/h"])
            out = normal(W + "/" + rng.choice(odirs) + "/gl%d" % i)
            pat = rng.choice(["*.in", "*.in", "n*", "*.i*"])
            how = rng.randrange(hows) if spelled else 0
            x = [[y, sp(y)] for y in rng.sample(srcs + outs, rng.choice([0, 1]))]
            decls.append({"k": "glob", "out": out, "sp": sp(out), "dir": g, "pat": pat, "how": how, "spd": spell(g, how), "as": rng.choice(["cmd", "func"]), "ins": x, "tag": "G%d" % i, "deps": []})
            wild.append(decls[-1])
            outs.append(out)
    tops = [x for x in outs + names if not any(x == y[0] for d in decls for y in d.get("ins", []) + d.get("deps", []))]
    decls.append({"k": "fileset", "n": "all", "deps": [[x, sp(x)] for x in tops], "form": 0})
    for s in srcs:
        decls.append({"k": "src", "p": s, "sp": sp(s)})
    mode = rng.random()
    if mode < 0.5:
        rng.shuffle(decls)
    elif mode < 0.65:
        decls.reverse()
    scn = {"family": "build", "core": core, "decls": decls, "init": {s: "SRC %s v0\n" % s for s in srcs}, "dirs": [], "cfg": gen_cfg(rng, prof)}
    if hows == 6:
        scn["linked"] = 1
    if rng.random() < 0.3:
        scn["share"] = 1
    globs = []
    for d in wild:
        for i in range(rng.choice([0, 1, 2, 3])):
            f = "%s/%s%d.in" % (d["dir"], rng.choice("nm"), i)
            scn["init"][f] = "SRC %s v0\n" % f
            globs.append(f)
    keys = [key_of(d) for d in decls if d["k"] not in ("src", "fileset", "dir")]
    scn["durs"] = gen_durs(rng, keys)
    if rng.random() < 0.2:
        scn["dirs"] = [W + "/o"]
    ver = [0]

    def edit(inproc=False):
        ver[0] += 1
        r = rng.random()
        if wild and rng.random() < 0.4:
            if globs and (inproc or rng.random() < 0.4):
                f = rng.choice(globs)
            elif inproc:
                f = rng.choice(srcs)
            else:       # one more file for the wildcard
                f = "%s/%s%d%s" % (rng.choice(wild)["dir"], rng.choice("nmk"), ver[0] + 5, rng.choice([".in", ".in", ".out"]))
                if f.endswith(".in"):
                    globs.append(f)
            return {"op": "edit", "p": f, "c": "SRC %s v%d\n" % (f, ver[0])}
        if r < 0.6:
            s = rng.choice(srcs)
            return {"op": "edit", "p": s, "c": "SRC %s v%d\n" % (s, ver[0])}
        if r < 0.7:
            return {"op": "touch", "p": rng.choice(srcs)}
        if r < 0.95 or inproc:
            return {"op": "del", "p": rng.choice(outs)}
        if rng.random() < 0.5:
            return {"op": "rmdir", "p": rng.choice([W + "/o", W + "/p", W + "/o/y"])}
        return {"op": "del", "p": rng.choice(srcs)}
    hist = []
    nproc = rng.choice(prof.get("procs", [1, 2, 2, 3, 4]))
    targets = ["all"] * 3 + outs + names + sdirs
    late = []
    takeover = False
    if rng.random() < prof.get("late", 0.0):
        cand = [i for i, d in enumerate(decls) if d["k"] in ("copy", "cmd", "func", "touch")]
        refd = {y[0] for d in decls for y in d.get("ins", []) + d.get("deps", [])}
        # a rule may be declared late when nothing needs it by then, or its file exists as a source
        cand = [i for i in cand if decls[i]["out"] in tops or (rng.random() < 0.6 and decls[i]["out"] not in [x[0] for x in decls[i]["ins"]])]
        if cand:
            i = rng.choice(cand)
            lo = decls[i]["out"]
            decls[i]["late"] = 1
            late.append(i)
            if lo in tops:
                for d in decls:
                    if d["k"] == "fileset" and d["n"] == "all":
                        d["deps"] = [x for x in d["deps"] if x[0] != lo]
            else:
                takeover = True
                decls.append({"k": "src", "p": lo, "sp": sp(lo)})
                scn["init"][lo] = "SRC %s before it had a rule\n" % lo
    for i in range(nproc):
        final = i == nproc - 1 and (i > 0 or rng.random() < 0.4)
        ops = []
        lateout = {decls[x]["out"] for x in late}
        tg = [t for t in targets if t not in lateout]

        def one(lastop):
            t = rng.choice(tg) if not final or not lastop else rng.choice(["all", "all", rng.choice(tg)])
            s = sp(t)
            if rng.random() < prof.get("clean", 0.12) and t not in plain:
                o = gen_build(rng, prof, t, s, core, last=lastop)
                o["op"] = "clean"
                if o["via"] == "recurse":
                    o["via"] = "invoke"
                    o.pop("byarg", None)
                o.pop("args", None)
                return o
            if not lastop and rng.random() < 0.25:
                more = [rng.choice(tg) for _ in range(rng.choice([1, 1, 2]))]
                return {"op": "many", "t": t, "sp": s, "more": more, "j": rng.choice([1, 2, 4]), "via": "do", "form": rng.randrange(2)}
            return gen_build(rng, prof, t, s, core, last=lastop)
        if rng.random() < prof.get("session", 0.15):
            for _ in range(rng.choice([1, 2, 2, 3])):
                ops.append(one(False))
                while rng.random() < 0.4:
                    ops.append(edit(True))
            if late and rng.random() < 0.7:
                ops.append({"op": "declare", "i": late[0]})
                lo = decls[late[0]]["out"]
                if takeover:
                    ops.append({"op": "del", "p": lo})
                    t = rng.choice(["all", lo] + [t for t in tg if t not in plain])
                    ops.append(gen_build(rng, prof, t, sp(t), core, last=False))
                else:
                    ops.append(gen_build(rng, prof, lo, sp(lo), core, last=False))
        ops.append(one(True))
        p = {"op": "proc", "ops": ops}
        gen_proc_faults(rng, prof, scn, p, keys, final)
        hist.append(p)
        if not final or i < nproc - 1:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                hist.append(edit())
    # a repeated last build must find nothing to do
    if hist[-1]["op"] == "proc" and rng.random() < 0.5:
        q = _copy.deepcopy(hist[-1])
        for f in ("fail", "interrupt", "crash", "fsfault", "stdout_fail"):
            q.pop(f, None)
        q["ops"] = [q["ops"][-1]]
        if q["ops"][0]["op"] in ("build", "clean"):
            hist.append(q)
    scn["history"] = hist
    return scn


# -------------------------------------------------------------------------------------------------------------- shrinking
def _without_decl(scn, i):
    """The scenario without declaration i and without anything that mentions it; None when that is not possible."""
    s = _copy.deepcopy(scn)
    key = key_of(s["decls"][i])
    if s["decls"][i]["k"] == "src" and any(key == x[0] for d in s["decls"] for x in d.get("ins", []) + d.get("deps", [])):
        return None
    del s["decls"][i]
    for d in s["decls"]:
        if "ins" in d:
            had = len(d["ins"])
            d["ins"] = [x for x in d["ins"] if x[0] != key]
            if had and not d["ins"]:
                return None
        if "deps" in d:
            d["deps"] = [x for x in d["deps"] if x[0] != key]
    for op in s["history"]:
        if op["op"] != "proc":
            continue
        for o in op["ops"]:
            if o.get("t") == key:
                return None
            if o["op"] == "declare":
                if o["i"] == i:
                    return None
                if o["i"] > i:
                    o["i"] -= 1
        if "declared" in op:
            op["declared"] = [x - (x > i) for x in op["declared"] if x != i]
        for f in ("fail", "noise"):
            if f in op:
                op[f].pop(key, None)
                if not op[f]:
                    del op[f]
    s["durs"].pop(key, None)
    return s


def show_lost(scn):
    """Inputs whose file set has gone are dependencies of the rule itself."""
    sets = {d["n"]: [x[0] for x in d["deps"]] for d in scn["decls"] if d["k"] == "fileset"}
    for d in scn["decls"]:
        for x in d.get("ins", []):
            if len(x) > 2:
                todo, seen = [y[0] for y in d["deps"]], set()
                while todo:
                    y = todo.pop()
                    if y not in seen:
                        seen.add(y)
                        todo += sets.get(y, [])
                if x[0] not in seen:
                    del x[2:]
    return scn


def shrink(scn):
    """Simpler scenarios, most drastic first."""
    for s in shrink_steps(scn):
        yield show_lost(s)


def shrink_steps(scn):
    n = len(scn["history"])
    for i in range(n - 1, -1, -1):
        if n > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            if any(o["op"] == "proc" for o in s["history"]):
                yield s
    for i in range(len(scn["decls"])):
        s = _without_decl(scn, i)
        if s is not None:
            yield s
    for i, op in enumerate(scn["history"]):
        if op["op"] != "proc":
            continue
        for j in range(len(op["ops"])):
            if len(op["ops"]) > 1:
                s = _copy.deepcopy(scn)
                if s["history"][i]["ops"][j]["op"] != "declare":
                    del s["history"][i]["ops"][j]
                    if s["history"][i]["ops"][-1]["op"] in ("build", "clean"):
                        yield s
        for f in ("interrupt", "crash", "fsfault", "stdout_fail", "foreign", "fail", "noise"):
            if f in op:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        for f in ("fail", "noise"):
            if len(op.get(f, {})) > 1:
                for x in sorted(op[f]):
                    s = _copy.deepcopy(scn)
                    del s["history"][i][f][x]
                    yield s
        for j, o in enumerate(op["ops"]):
            if o.get("flags") or o.get("deflt"):
                s = _copy.deepcopy(scn)
                q = s["history"][i]["ops"][j]
                q.pop("deflt", None)
                if "flags" in q:
                    q["flags"] = []
                yield s
            if o.get("j") and o["j"] > 1:
                for v in (1, 2):
                    if v < o["j"]:
                        s = _copy.deepcopy(scn)
                        s["history"][i]["ops"][j]["j"] = v
                        yield s
    if scn["durs"]:
        s = _copy.deepcopy(scn)
        s["durs"] = {}
        yield s
        if len(scn["durs"]) > 1:
            for x in sorted(scn["durs"]):
                s = _copy.deepcopy(scn)
                del s["durs"][x]
                yield s
    for f, v in (("mtime_gran", 1), ("pipe_cap", None), ("short_writes", None), ("tick", 1000), ("line", False)):
        if f in scn["cfg"] and scn["cfg"][f] != v:
            s = _copy.deepcopy(scn)
            if v is None:
                del s["cfg"][f]
            else:
                s["cfg"][f] = v
            yield s
    for i, d in enumerate(scn["decls"]):
        for f in ("ins", "deps"):
            if len(d.get(f, [])) > (1 if f == "ins" else 0):
                for j in range(len(d[f])):
                    s = _copy.deepcopy(scn)
                    del s["decls"][i][f][j]
                    yield s
    plain = _copy.deepcopy(scn)
    for d in plain["decls"]:
        if d.get("sp"):
            d["sp"] = spell(key_of(d), 0)
        for x in d.get("ins", []) + d.get("deps", []):
            x[1] = spell(x[0], 0)
    for op in plain["history"]:
        for o in op.get("ops", []):
            if o.get("sp"):
                o["sp"] = spell(o["t"], 0)
    if plain != scn:
        yield plain


# ---------------------------------------------------------------------------------------------- directed: recorded findings
def torn_after_kill():
    """licant and the command it runs are killed while the command is writing; the next build takes what is there as up to date."""
    a, r = W + "/a.txt", W + "/r0"
    for core in ("mk", "default"):
        yield {"family": "build", "core": core, "decls": [
            {"k": "src", "p": a, "sp": "a.txt"},
            {"k": "cmd", "out": r, "sp": "r0", "ins": [[a, "a.txt"]], "tag": "R0", "deps": [], "tmpl": 0},
            {"k": "fileset", "n": "all", "deps": [[r, "r0"]], "form": 0}], "init": {a: "SRC\n"}, "dirs": [], "cfg": {}, "durs": {}, "history": [
                {"op": "proc", "ops": [{"op": "build", "t": "all", "sp": "all", "j": 1, "via": "cli", "flags": []}], "crash": ["mid", 1, 0], "crash_mode": "group"},
                {"op": "proc", "ops": [{"op": "build", "t": "all", "sp": "all", "j": 1, "via": "cli", "flags": []}]}]}
