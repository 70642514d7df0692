"""Scenario family "refuse": dependency graphs with cycles and names nobody declared, alone and in the middle of a session in which the
graph is valid before or after; run on the machinery of the build family, judged here."""
import copy as _copy
import random

from . import builds
from .builds import ASSUME, REAL, STUB, W, gen_cfg, gen_durs
from .common import LINK, spell
from .kernel import SimKilled
from .proc import event_digest

RULE = "a build of a cyclic or dangling graph was requested"
MARKED = ("step_start", "cmd_start")


def deps_of(d):
    return [x[0] for x in d.get("ins", []) + d.get("deps", [])]


def wrong(nodes, files, target):
    """What makes the graph below a target unusable: a cycle or an unknown name, or None."""
    state = {}

    def go(x, way):
        if state.get(x) == 2:
            return None
        if state.get(x) == 1:
            return "cycle through %s" % x
        if x not in nodes:
            return None if x in files else "unknown name %s" % x
        state[x] = 1
        for y in nodes[x]:
            r = go(y, way)
            if r:
                return r
        state[x] = 2
        return None
    return go(target, [])


class Run(builds.Run):
    def process(self, op):
        k, rep = self.k, self.rep
        self.fails, self.noise = {}, {}
        k.fault = None
        k.triggers = []
        if op.get("interrupt"):
            k.interrupt_at = k.ch.points + op["interrupt"]
        self.infos = []
        k.on_quiescent = None

        def body(licant):
            if op.get("stdout_fail") is not None:
                k.out.fail_after = op["stdout_fail"]
                k.out.err = 32
            ctx = builds.Ctx(self, op, licant)
            nodes = {}
            files = {p for p in self.scn["init"]}

            def declare(d):
                ctx.declare(d)
                nodes[builds.key_of(d)] = deps_of(d)
            for i, d in enumerate(self.scn["decls"]):
                if not d.get("late"):
                    declare(d)
            for i, o in enumerate(op["ops"]):
                if o["op"] == "declare":
                    declare(self.scn["decls"][o["i"]])
                    continue
                info = {"op": o, "wrong": wrong(nodes, files, o["t"]), "any": [x for x in sorted(nodes) if wrong(nodes, files, x)], "first": len(k.events)}
                self.infos.append(info)
                k.log("op_start", op=o["op"], target=o["t"])
                try:
                    info["result"] = ctx.perform(o)
                except SimKilled:
                    raise
                except BaseException as e:
                    info["exc"] = e
                    if i == len(op["ops"]) - 1 or isinstance(e, KeyboardInterrupt):
                        raise
                finally:
                    if not k.killed:
                        k.log("op_end", op=o["op"])
                        info["last"] = len(k.events)
        res = self.sim.process(body, cwd=W)
        k.drain()
        k.out = None
        rep.stats["processes"] = rep.stats.get("processes", 0) + 1
        ev = k.events[res.first:]
        if res.why in ("deadlock", "no-progress"):
            rep.add("C30", "a request never returns", res.why, key="hang")
            if not any(i["wrong"] for i in self.infos):
                rep.add("C03", "the build never returns", res.why, key="hang")
            return res
        disturbed = any(e["ev"] in ("interrupt", "stdout_fault") for e in ev)
        for n, info in enumerate(self.infos):
            last = info.get("last", len(k.events))
            ran = [e for e in k.events[info["first"]:last if n + 1 < len(self.infos) else len(k.events)] if e["ev"] in MARKED]
            ok = "exc" not in info and info.get("result") is not False
            if n == len(self.infos) - 1 and info["op"]["via"] == "cli":
                ok = res.code == 0
            if info["wrong"]:
                rep.probe("refusals")
                rep.probe("refused_in_session" if n else "refused_first")
                if ran:
                    e = ran[0]
                    rep.add("C30", "a step ran although the graph of the request is unusable", "%s: %s" % (e.get("name") or e.get("cmd"), info["wrong"]))
                if ok and not (disturbed and n == len(self.infos) - 1):
                    rep.add("C30", "success reported although the graph of the request is unusable", info["wrong"])
            elif not info["any"] and not disturbed:
                rep.probe("valid_requests")
                if not ok:
                    rep.add("C30", "a usable graph was refused", "%s %r %s" % (info["op"]["t"], info.get("exc") or res.exc, res.text(1)[-200:] if res.out else ""))
        return res


def run(scn, chooser):
    r = Run(scn, chooser)
    rep, k, fs = r.rep, r.k, r.fs
    try:
        for p in sorted(scn["init"]):
            fs._mkdirs(p.rsplit("/", 1)[0])
            fs._write(p, scn["init"][p])
        if scn.get("linked"):
            fs._mkdirs(LINK.rsplit("/", 1)[0])
            fs.symlink(W, LINK)
        r.advance_clock()
        for op in scn["history"]:
            r.process(op)
            if k.unsupported:
                rep.skip(k.unsupported)
                break
            if any(v.key == "hang" for v in rep.violations):
                break
            r.advance_clock()
    finally:
        r.sim.close()
    rep.stats.update(k.stats)
    rep.digest = event_digest(k)
    rep.taken = dict(chooser.taken)
    rep.points = chooser.points
    rep.sim_ns = k.now_ns - k.start_ns
    rep.events = k.events
    rep.nontrivial = bool(rep.probes.get("refusals"))
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
def gen(rng, prof):
    core = rng.choice(["mk", "default", "default", "graph", "solver"])
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 10])
    spelled = rng.random() < 0.4
    hows = 6 if rng.random() < prof.get("linked", 0.15) else 5

    def sp(p):
        return spell(p, rng.randrange(hows) if spelled else 0)
    src = W + "/s.txt"
    init = {src: "SRC\n"}
    decls = []
    keys = []
    for i in range(n):
        kinds = ["plain"] if core == "solver" else ["upd", "routine", "fileset"] if core == "graph" else ["upd", "routine", "cmd", "cmd", "func", "fileset", "copy"]
        k = rng.choice(kinds)
        pool = [x for x in keys if k not in ("copy",) or x.startswith("/")]
        below = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2, 3])))
        if i and not below and rng.random() < 0.6:
            below = [keys[-1]] if k != "copy" or keys[-1].startswith("/") else []
        if k in ("cmd", "func", "copy"):
            out = W + rng.choice(["/", "/o/"]) + "f%d" % i
            files = [x for x in below if x.startswith("/")] or [src]
            if k == "copy":
                below = files[:1]
                ins = files[:1]
            else:
                ins = files
            d = {"k": k, "out": out, "sp": sp(out), "ins": [[x, sp(x)] for x in ins], "deps": [[x, sp(x)] for x in below if x not in ins], "tag": "R%d" % i, "tmpl": 0}
            if rng.random() < 0.4:
                init[out] = "OLD %d\n" % i
        else:
            d = {"k": k, "n": "t%d" % i, "deps": [[x, sp(x)] for x in below], "upd": rng.choice([0, 1, 1]), "res": None, "form": rng.randrange(2)}
        decls.append(d)
        keys.append(builds.key_of(d))
    good = {builds.key_of(d): deps_of(d) for d in decls}
    # the fault of the graph: one more dependency of one target
    i = rng.randrange(n)
    v = keys[i]

    def above(x):
        out, todo = [x], [x]
        while todo:
            y = todo.pop()
            for z in sorted(good):
                if y in good[z] and z not in out:
                    out.append(z)
                    todo.append(z)
        return out
    bad = _copy.deepcopy(decls[i])
    what = rng.choice(["cycle", "cycle", "cycle", "self", "name", "file"])
    if core == "solver" and what == "file":
        what = "name"
    if what in ("cycle", "self"):
        up = above(v)
        x = v if what == "self" else rng.choice(up)
        if x not in deps_of(bad):
            bad.setdefault("deps", []).append([x, sp(x)])
    elif what == "name":
        bad["deps"] = bad["deps"] + [["nosuch", "nosuch"]]
    else:
        x = W + "/none.txt"
        bad["deps"] = bad["deps"] + [[x, sp(x)]]
    rng.shuffle(bad["deps"])
    tops = [k for k in keys if not any(k in good[x] for x in good)]
    j = [1, 1, 2, 3, 8]

    def build(last):
        t = rng.choice(above(v)) if rng.random() < 0.8 else rng.choice(keys + tops)
        d = decls[keys.index(t)]
        return builds.gen_build(rng, {"jobs": j}, t, sp(t) if t.startswith("/") else None, core, last=last)
    scn = {"family": "refuse", "core": core, "init": init, "dirs": [], "cfg": gen_cfg(rng, prof)}
    if hows == 6:
        scn["linked"] = 1
    hist = []
    if core == "solver" or rng.random() < 0.5:
        decls[i] = bad
        order = list(decls)
        if rng.random() < 0.6:
            rng.shuffle(order)
        for _ in range(rng.choice([1, 1, 2])):
            hist.append({"op": "proc", "ops": [build(False) for _ in range(rng.choice([0, 0, 1]))] + [build(True)]})
    else:
        order = list(decls)
        if rng.random() < 0.6:
            rng.shuffle(order)
        again = _copy.deepcopy(decls[i])
        order += [dict(bad, late=1), dict(again, late=1)]
        for _ in range(rng.choice([1, 1, 2])):
            ops = [build(False)] if rng.random() < 0.6 else []
            ops.append({"op": "declare", "i": n})
            ops.append(build(False))
            if rng.random() < 0.5:
                ops.append({"op": "declare", "i": n + 1})
                ops.append(build(False))
            ops.append(build(True))
            hist.append({"op": "proc", "ops": ops})
    if core in ("mk", "default"):
        order = [{"k": "src", "p": src, "sp": sp(src)}] + order
        for p in hist:
            for o in p["ops"]:
                if o["op"] == "declare":
                    o["i"] += 1
    for p in hist:
        if rng.random() < prof.get("stdout", 0.05):
            p["stdout_fail"] = rng.choice([0, 1, 2, 5])
        if rng.random() < prof.get("interrupt", 0.05):
            p["interrupt"] = rng.randrange(200)
    scn["decls"] = order
    scn["durs"] = gen_durs(rng, keys) if rng.random() < 0.5 else {}
    scn["history"] = hist
    return scn


def shrink(scn):
    n = len(scn["history"])
    for i in range(n):
        if n > 1:
            s = _copy.deepcopy(scn)
            del s["history"][i]
            yield s
    for i, op in enumerate(scn["history"]):
        for j in range(len(op["ops"])):
            if len(op["ops"]) > 1:
                s = _copy.deepcopy(scn)
                del s["history"][i]["ops"][j]
                if s["history"][i]["ops"][-1]["op"] == "build":
                    yield s
        for f in ("interrupt", "stdout_fail"):
            if f in op:
                s = _copy.deepcopy(scn)
                del s["history"][i][f]
                yield s
        for j, o in enumerate(op["ops"]):
            if o.get("flags") or o.get("deflt") or o.get("form"):
                s = _copy.deepcopy(scn)
                q = s["history"][i]["ops"][j]
                q.pop("deflt", None)
                q.pop("form", None)
                if "flags" in q:
                    q["flags"] = []
                yield s
            if o.get("j") and o["j"] > 1:
                s = _copy.deepcopy(scn)
                s["history"][i]["ops"][j]["j"] = 1
                yield s
    if scn["durs"]:
        s = _copy.deepcopy(scn)
        s["durs"] = {}
        yield s
    late = any(o["op"] == "declare" for op in scn["history"] for o in op["ops"])
    for i, d in enumerate(scn["decls"]):
        k = builds.key_of(d)
        if not late and not any(k in deps_of(x) for x in scn["decls"] if x is not d) and not any(o.get("t") == k for op in scn["history"] for o in op["ops"]):
            s = _copy.deepcopy(scn)
            del s["decls"][i]
            yield s
        for j in range(len(d.get("deps", []))):
            s = _copy.deepcopy(scn)
            del s["decls"][i]["deps"][j]
            yield s
