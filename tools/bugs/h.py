BUGS = []
def bug(**k): BUGS.append(k)
M, S, C, U, Lb, O, X = "licant/make.py", "licant/solver.py", "licant/core.py", "licant/util.py", "licant/libs.py", "licant/modules.py", "licant/cxx_modules.py"

bug(id="c02-links-not-resolved", prop="C02",
    edits=[(U, "canonical_path_lazy_store = DefaultDictLazy(lambda path: os.path.realpath(path))", "canonical_path_lazy_store = DefaultDictLazy(lambda path: os.path.abspath(path))")],
    needs="a target that is also asked for by a path through a symbolic link to a directory",
    breaks="A file and its name through a symbolic link are two targets: the file is taken for a source there and its step does not run.",
    demo="""
os.makedirs("real")
os.symlink("real", "link")
put("make.py", '''
import licant
licant.makefile(tgt="real/a.txt", deps=[], do="echo run >> log; echo a > real/a.txt")
licant.makefile(tgt="b.txt", deps=["link/a.txt"], do="cat real/a.txt > b.txt")
licant.ex("b.txt")
''')
r = run("make.py")
check(r.returncode == 0 and get("log").split() == ["run"], "the step of a.txt did not run once: " + r.stdout)
""")

bug(id="c16-hidden-headers", prop="C16",
    edits=[(U, "    for base, dirs, files in os.walk(treeroot):\n        goodfiles", "    for base, dirs, files in (x for x in os.walk(treeroot) if '/.' not in x[0][len(treeroot):]):\n        goodfiles")],
    needs="a directory of headers whose name begins with a dot",
    breaks="Headers below directories like .priv are not installed.",
    demo="""
put("inc/a.h", "a")
put("inc/.priv/p.h", "p")
put("make.py", '''
import licant, licant.install
licant.install.install_library(tgt="inst", hroot="proj", headers="inc", uninstall="uninst")
licant.ex("inst")
''')
r = run("make.py", env={"PREFIX": W + "/usr"})
check(r.returncode == 0 and os.path.exists("usr/include/proj/.priv/p.h"), "not installed: " + r.stdout)
r = run("make.py", "uninst", env={"PREFIX": W + "/usr"})
check(not os.path.exists("usr/include/proj/.priv/p.h"), "not removed: " + r.stdout)
""")

bug(id="c31-default-resets", prop="C31",
    edits=[(O, "        if mod.name in self.modules:\n            if not", "        if mod.name in self.modules and impl != '__default__':\n            if not")],
    needs="a module with named implementations and, declared after them, one without a name; a request for a named one",
    breaks="Declaring the implementation without a name forgets those declared before.",
    demo="""
put("a.cpp", "int a;\\n")
put("d.cpp", "int d;\\n")
put("p.cpp", "int p;\\n")
put("make.py", '''
import licant
licant.module("m", impl="a", sources=["a.cpp"])
licant.module("m", sources=["d.cpp"])
licant.cxx_objects("app", sources=["p.cpp"], mdepends=[("m", "a")])
licant.ex("app")
''')
r = run("make.py")
check(r.returncode == 0, "implementation a is gone: " + r.stdout)
""")

bug(id="c34-library-again", prop="C34",
    edits=[(Lb, "    if lib in included:\n", "    if lib in included and (path is None or os.path.abspath(path) == os.path.abspath(included[lib])):\n")],
    needs="two scripts that include one library with different paths",
    breaks="A library that is included by another path once more is executed once more.",
    demo="""
put("l1/lib.g.py", "print('LOADED')\\n")
put("l2/lib.g.py", "print('LOADED')\\n")
put("make.py", '''
import licant
licant.include("lib", "l1/lib.g.py")
licant.include("lib", "l2/lib.g.py")
''')
r = run("make.py")
check(r.stdout.count("LOADED") == 1, "library executed %d times" % r.stdout.count("LOADED"))
""")

bug(id="c10-late-source", prop="C10",
    edits=[(M, "    target.clr = None\n    target.dirkeep = licant.util.do_nothing\n    return default_core().add(target)", "    if os.path.exists(tgt):\n        target.clr = None\n    target.dirkeep = licant.util.do_nothing\n    return default_core().add(target)"),
           ],
    needs="a source that is declared before it exists and written before a clean of the same process",
    breaks="A source that was missing when it was declared is removed by clean.",
    demo="""
put("make.py", '''
import licant, licant.core, licant.make
licant.source("a.txt")
licant.copy(src="a.txt", tgt="b.txt")
open("a.txt", "w").write("precious")
t = licant.core.default_core().get("b.txt")
assert t.invoke("makefile") is True
t.invoke("clean")
''')
r = run("make.py")
check(os.path.exists("a.txt"), "the source was removed: " + r.stdout)
""")

bug(id="c12-missing-header", prop="C12",
    edits=[(X, "            for h in headers:\n", "            headers = [h for h in headers if os.path.exists(h)]\n            for h in headers:\n")],
    needs="a header that is removed after a build",
    breaks="A header that is gone is forgotten: the object is taken for current although it can no longer be made.",
    demo="""
put("src/a.cpp", '#include "h.h"\\nint f() { return H; }\\n')
put("src/h.h", '#define H 1\\n')
put("make.py", '''
import licant
licant.cxx_objects("app", sources=["src/a.cpp"])
licant.ex("app")
''')
r = run("make.py")
check(r.returncode == 0, "no build: " + r.stdout)
os.remove("src/h.h")
r = run("make.py")
check(r.returncode != 0, "success although a header is missing: " + r.stdout)
""")

bug(id="c30-long-cycle", prop="C30",
    edits=[(S, "            if dep in path:\n", "            if dep in path[-3:]:\n")],
    needs="a cycle of more than three targets that can be reached from a leaf",
    breaks="Only short cycles are found before the build: steps run first.",
    demo="""
put("make.py", '''
import licant, licant.core, licant.solver as s
log = []
def t(n, deps):
    return s.DependableTarget(n, deps, lambda: log.append(n))
ts = [t("leaf", []), t("a", ["leaf", "e"]), t("b", ["a"]), t("c", ["b"]), t("d", ["c"]), t("e", ["d"])]
try:
    s.InverseRecursiveSolver(ts, count_of_threads=2).exec()
    print("DONE")
except BaseException as e:
    print("REFUSED", type(e))
print("RAN", log)
''')
r = run("make.py")
check("REFUSED" in r.stdout and "RAN []" in r.stdout, r.stdout)
""")

bug(id="c13-first-only", prop="C13",
    edits=[(M, "                dirkeep(dirpath)\n                deps = deps + [dirpath]", "                if not default_core().has(dirpath):\n                    deps = deps + [dirpath]\n                dirkeep(dirpath)")],
    needs="two outputs in one new directory, the first of which is not ready or not asked for",
    breaks="Only the first output declared in a directory waits for it.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="out/a.txt", deps=[], do="echo a > {tgt}")
licant.makefile(tgt="out/b.txt", deps=[], do="echo b > {tgt}")
licant.ex("out/b.txt")
''')
r = run("make.py")
check(r.returncode == 0 and os.path.exists("out/b.txt"), "the directory did not exist: " + r.stdout)
""")

bug(id="c18-same-length", prop="C18",
    edits=[(C, "        if self.cached_deplist is None:\n            self.cached_deplist = [self.core.get(d) for d in self.deps]\n\n        return self.cached_deplist",
            "        key = tuple(map(str, self.deps))\n        if getattr(self, 'deplist_of', None) != key:\n            self.deplist_of = key\n            self.kept_deplist = [self.core.get(d) for d in self.deps]\n\n        return self.kept_deplist")],
    needs="a process that builds, declares a target again, and builds again",
    breaks="The targets a target depends on are kept from an earlier build of the process: one that was declared again is ignored.",
    demo="""
put("make.py", '''
import licant, licant.core
core = licant.core.default_core()
log = []
core.updtarget("a", update=lambda s: log.append("old a"), update_if=lambda s: False)
core.updtarget("b", deps=["a"], update=lambda s: log.append("b"), update_if=lambda s: False)
assert core.do("b") is True
core.updtarget("a", update=lambda s: log.append("new a"), update_if=lambda s: True)
assert core.do("b") is True
print("RAN", log)
''')
r = run("make.py")
check("RAN ['new a', 'b']" in r.stdout, r.stdout)
""")
