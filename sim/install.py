"""Scenario family "install": install and uninstall targets of the real install module, run and judged by the machinery of the build family."""
import copy as _copy
import fnmatch
import posixpath

from . import builds
from .builds import ASSUME, REAL as _REAL, STUB, W, gen_cfg, gen_durs, gen_proc_faults, gen_build
from .common import spell

RULE = "at least one build step or command ran and the scheduler switched between threads or commands at least once"
REAL = _REAL + ["licant/install.py"]


def places(env):
    """bin, include, lib"""
    if "PREFIX" in env:
        p = env["PREFIX"]
        return p + "/bin", p + "/include", p + "/lib"
    return "/usr/local/bin", "/usr/local/include", "/usr/lib"


def match(fs, d):
    """Headers of a header set as they are now."""
    if not fs._exists(d["src"]):
        return []
    files, _ = fs._tree(d["src"])
    return sorted(p for p in files if any(fnmatch.fnmatch(posixpath.basename(p), x) for x in d["patterns"]))


def expand(d, fs, env):
    """What an install declaration means, as plain rules."""
    b, inc, lib = places(env)
    k = d["k"]
    out = []

    def copy(src, tgt, deps=()):
        out.append({"k": "copy", "out": tgt, "sp": tgt, "ins": [[src, src]], "deps": [[x, x] for x in deps]})
        return tgt
    if k == "iapp":
        t = copy(d["src"], b + "/" + d["dst"])
        if d.get("n"):
            out.append({"k": "fileset", "n": d["n"], "deps": [[t, t]]})
    elif k == "ishlib":
        copy(d["src"], lib + "/" + (d.get("new") or posixpath.basename(d["src"])))
    else:
        libs = d.get("libs", [])
        mem = [copy(x, lib + "/" + posixpath.basename(x)) for x in libs]
        heads = [copy(h, inc + "/" + d["dir"] + "/" + posixpath.relpath(h, d["src"]), libs + d.get("adddeps", [])) for h in match(fs, d)]
        n = d["n"] if k == "iheaders" else d["n"] + "/headers"
        out.append({"k": "fileset", "n": n, "deps": [[x, x] for x in heads]})
        if k == "ilibrary":
            out.append({"k": "fileset", "n": d["n"], "deps": [[n, n]] + [[x, x] for x in mem]})
            if d.get("un"):
                out.append({"k": "uninstall", "n": d["un"], "deps": [], "weak": heads + mem})
    return out


def declare(ctx, d):
    """Call the real install module."""
    I = ctx.licant.install
    k = d["k"]
    sp = d.get("sp", d["src"])
    if k == "iapp":
        r = I.install_application(sp, d["dst"], *([d["n"]] if d.get("n") else []))
        ctx.names[d.get("n") or builds.posixpath.join(places(ctx.model.env)[0], d["dst"])] = r
    elif k == "ishlib":
        I.install_shared_library(sp, d.get("new"))
    elif k == "iheaders":
        kw = {"adddeps": list(d["adddeps"])} if d.get("adddeps") else {}
        full, raw = I.install_headers(d["dir"], sp, patterns=list(d["patterns"]), **kw)
        ctx.names[d["n"]] = full
    else:
        libs = d.get("libspell", d.get("libs", []))
        kw = {}
        if libs:
            kw["libtgt"] = list(libs) if len(libs) > 1 or d.get("aslist") else libs[0]
        if d.get("un"):
            kw["uninstall"] = d["un"]
        ctx.names[d["n"]] = I.install_library(d["n"], d["dir"], sp, headers_patterns=list(d["patterns"]), **kw)


#: what goes wrong here is (also) a broken install or uninstall
MIRROR = {"C02", "C03", "C05", "C07", "C09", "C10", "C13", "C18"}


def run(scn, chooser):
    rep = builds.run(scn, chooser)
    for v in list(rep.violations):
        if v.prop in MIRROR and v.what not in ("up-to-date step was executed",):
            rep.add("C16", v.what, v.detail, key=v.key)
    return rep


# -------------------------------------------------------------------------------------------------------------- generation
HEADERS = ["a.h", "b.hpp", "sub/c.h", "sub/deep/d.hxx", "x/a.h", "e.h", "Types.h", "Sub/Vec.hpp", ".hidden.h", ".priv/p.h"]


def gen(rng, prof):
    env = {}
    if rng.random() < 0.3:
        env["PREFIX"] = rng.choice(["/home/user/.local", "/opt/p"])
    b, inc, lib = places(env)
    init = {}
    decls = []
    roots = [W, "/usr", "/home/user", "/opt"]
    dirs = ["/usr/local", "/opt"] + [x for x in (b, inc, lib) if rng.random() < 0.6]
    spelled = rng.random() < 0.5
    hows = 6 if rng.random() < prof.get("linked", 0.15) else 5

    def sp(p):
        return spell(p, rng.randrange(hows) if spelled else 0)
    srcs = []
    for i in range(rng.choice([1, 2])):
        p = W + "/src%d.c" % i
        init[p] = "SRC %s v0\n" % p
        srcs.append(p)
    built = []
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        out = W + rng.choice(["/build/", "/"]) + rng.choice(["libx%d.so", "prog%d"]) % i
        ins = rng.sample(srcs, rng.choice([1, len(srcs)]))
        d = {"k": rng.choice(["cmd", "func", "copy"]), "out": out, "sp": sp(out), "ins": [[x, sp(x)] for x in ins], "tag": "B%d" % i, "deps": []}
        if d["k"] == "copy":
            d["ins"] = d["ins"][:1]
        if d["k"] == "cmd":
            d["tmpl"] = rng.choice([0, 1])
        decls.append(d)
        built.append(out)
    script = W + "/run.sh"
    init[script] = "SRC %s v0\n" % script
    hdirs = [W + "/include", W + "/inc2"][:rng.choice([1, 1, 2])]
    headers = []
    for hd in hdirs:
        for h in rng.sample(HEADERS, rng.choice([1, 2, 3, 4])):
            init[hd + "/" + h] = "SRC %s v0\n" % (hd + "/" + h)
            headers.append(hd + "/" + h)
        if rng.random() < 0.07:     # many directories
            for j in range(rng.choice([6, 12])):
                init["%s/many/k%02d/h%d.h" % (hd, j, j)] = "SRC many v%d\n" % j
                headers.append("%s/many/k%02d/h%d.h" % (hd, j, j))
        if rng.random() < 0.4:
            init[hd + "/readme.txt"] = "not a header\n"
    installs, uns = [], []
    used = set()
    n = rng.choice([1, 1, 2, 3])
    for i in range(n):
        k = rng.choice(["iapp", "iheaders", "ilibrary", "ilibrary", "ishlib"])
        if k in ("iapp", "ishlib"):
            src = rng.choice(built + [script])
            base = b if k == "iapp" else lib
            dst = rng.choice(["tool%d" % i, posixpath.basename(src)])
            if base + "/" + dst in used:
                continue
            used.add(base + "/" + dst)
            if k == "iapp":
                d = {"k": k, "src": src, "sp": sp(src), "dst": dst, "n": rng.choice([None, "install-app%d" % i])}
                installs.append(d["n"] or b + "/" + dst)
            else:
                d = {"k": k, "src": src, "sp": sp(src), "new": dst if dst != posixpath.basename(src) or rng.random() < .5 else None}
                installs.append(lib + "/" + dst)
        else:
            hd = rng.choice(hdirs)
            name = rng.choice(["proj%d" % i, "proj%d/v1" % i])
            d = {"k": k, "src": hd, "sp": sp(hd), "dir": name, "patterns": rng.choice([["*.h", "*.hxx"], ["*.h", "*.hxx", "*.hpp"], ["*.h"], ["*"], ["*.h", "a*"]]),
                 "n": "set%d" % i if k == "iheaders" else "install-lib%d" % i}
            if k == "iheaders" and built and rng.random() < 0.3:
                d["adddeps"] = [rng.choice(built)]
            if k == "ilibrary":
                libs = [x for x in rng.sample(built, min(len(built), rng.choice([0, 1, 1, 2]))) if lib + "/" + posixpath.basename(x) not in used]
                used |= {lib + "/" + posixpath.basename(x) for x in libs}
                d["libs"] = libs
                d["libspell"] = [sp(x) for x in libs]
                d["aslist"] = rng.randrange(2)
                if rng.random() < 0.7:
                    d["un"] = "uninstall%d" % i
                    uns.append(d["un"])
            installs.append(d["n"])
        decls.append(d)
    if not installs:
        return gen(rng, prof)
    if rng.random() < 0.5:
        decls.append({"k": "fileset", "n": "install", "deps": [[x, x] for x in installs], "macro": 1})
        # file sets of headers go by the name licant gives them: only names known beforehand can be listed
        hs = {d["n"] for d in decls if d["k"] == "iheaders"}
        decls[-1]["deps"] = [x for x in decls[-1]["deps"] if x[0] not in hs]
        if decls[-1]["deps"]:
            installs.append("install")
        else:
            decls.pop()
    for s in srcs:
        decls.append({"k": "src", "p": s, "sp": sp(s)})
    for x in (b, inc, lib):
        if x in dirs and rng.random() < 0.6:
            init[x + "/foreign.txt"] = "foreign\n"
            init[x + "/proj0/foreign.h"] = "foreign\n"
    scn = {"family": "install", "core": "default", "decls": decls, "init": init, "dirs": dirs, "roots": roots, "env": env, "cfg": gen_cfg(rng, prof)}
    if hows == 6:
        scn["linked"] = 1
    model = builds.Model(env)
    keys = [d["out"] for d in decls if d["k"] in ("cmd", "func", "copy")]
    inst = []
    fake = _Files(init, dirs)
    for d in decls:
        if d["k"] in builds.MACROS:
            inst += [x["out"] for x in expand(d, fake, env) if x["k"] == "copy"]
    scn["durs"] = gen_durs(rng, keys + inst)
    ver = [0]
    texts = srcs + headers + [script]

    def edit():
        ver[0] += 1
        r = rng.random()
        if r < 0.45:
            p = rng.choice(texts)
            return {"op": "edit", "p": p, "c": "SRC %s v%d\n" % (p, ver[0])}
        if r < 0.55:
            return {"op": "touch", "p": rng.choice(texts)}
        if r < 0.65:
            p = rng.choice(hdirs) + "/" + rng.choice(["new%d.h" % ver[0], "sub/new%d.hpp" % ver[0], "y/z/n%d.h" % ver[0]])
            return {"op": "edit", "p": p, "c": "SRC %s v%d\n" % (p, ver[0])}
        if r < 0.72:
            return {"op": "del", "p": rng.choice(headers)}
        if r < 0.9 and inst:
            return {"op": "del", "p": rng.choice(inst)}
        return {"op": "del", "p": rng.choice(built)} if built else {"op": "touch", "p": rng.choice(texts)}

    def one(last):
        if uns and rng.random() < 0.35:
            t = rng.choice(uns)
            o = gen_build(rng, prof, t, t, "default", last=last)
            o["op"] = "uninstall"
            if o["via"] == "recurse":
                o["via"] = "do"
                o.pop("byarg", None)
            return o
        t = rng.choice(installs + built[:1])
        o = gen_build(rng, prof, t, t, "default", last=last)
        if o["via"] == "recurse" and t in uns:
            o["via"] = "do"
            o.pop("byarg", None)
        if rng.random() < prof.get("clean", 0.05):
            o["op"] = "clean"
            o.pop("deflt", None)
            if o["via"] == "recurse":
                o["via"] = "invoke"
                o.pop("byarg", None)
        return o
    hist = []
    nproc = rng.choice([1, 2, 3, 4, 5])
    for i in range(nproc):
        final = i == nproc - 1 and i > 0
        ops = []
        if rng.random() < prof.get("session", 0.15):
            ops.append(one(False))
        ops.append(one(True))
        p = {"op": "proc", "ops": ops}
        gen_proc_faults(rng, prof, scn_keys(scn, keys, inst), p, keys + inst, final)
        if "crash" in p:
            p["crash_mode"] = "proc"
        hist.append(p)
        if not final:
            for _ in range(rng.choice([0, 1, 2])):
                hist.append(edit())
    scn["history"] = hist
    return scn


def scn_keys(scn, keys, inst):
    """A view of the scenario in which the installed files are rules."""
    return {"decls": scn["decls"][:0] + [d for d in scn["decls"] if builds_key(d) in keys] + [{"k": "copy", "out": x} for x in inst]}


def builds_key(d):
    return d.get("out")


class _Files:
    def __init__(self, init, dirs):
        self.init = init

    def _exists(self, p):
        return p in self.init or any(x.startswith(p + "/") for x in self.init)

    def _tree(self, p):
        return {x: b"" for x in self.init if x.startswith(p + "/")}, set()


def shrink(scn):
    for s in builds.shrink(scn):
        yield s
    for p in sorted(scn["init"]):
        s = _copy.deepcopy(scn)
        del s["init"][p]
        yield s
    if scn["env"]:
        s = _copy.deepcopy(scn)
        s["env"] = {}
        yield s
