BUGS = []
def bug(**k): BUGS.append(k)
M, C, S, U, I, L, X = ("licant/make.py", "licant/core.py", "licant/solver.py", "licant/util.py", "licant/install.py",
                       "licant/licant_libs.py", "licant/cxx_modules.py")

bug(id="c10-shared-list", prop="C10",
    edits=[(M, "                deps = deps + [dirpath]\n", "                deps += [dirpath]\n")],
    needs="one list of dependencies used for two targets, the first with its output in a directory that does not exist",
    breaks="The directory is added to the list of the script: the second target depends on the directory of the first and creates it.",
    demo='''
put("src.txt", "S")
put("make.py", """
import licant
common = ["src.txt"]
licant.makefile(tgt="build/a.txt", deps=common, do="cp src.txt {tgt}", message="A")
licant.makefile(tgt="b.txt", deps=common, do="cp src.txt {tgt}", message="B")
licant.ex("b.txt")
""")
r = run("make.py", "-j2")
check(r.returncode == 0, "build failed: " + r.stdout)
check(not os.path.exists("build"), "a directory of another target was created")
''')

bug(id="c30-self-dependency", prop="C30",
    edits=[(S, '''            if dep in path:
                raise CircularDependencyError(path + [dep])
''', '''            if dep in path[:-1]:
                raise CircularDependencyError(path + [dep])
''')],
    needs="a target that depends on itself and on something else that has to be made",
    breaks="A target depending on itself is not noticed while the graph is checked: other steps run before the build ends in an assertion.",
    demo='''
put("make.py", """
import licant
from licant.core import default_core
def low(t):
    open("log", "a").write("x")
core = default_core()
core.updtarget("low", update=low, update_if=lambda s: True)
core.updtarget("top", deps=["low", "top"], update=low, update_if=lambda s: True)
licant.ex("top")
""")
r = run("make.py", "-j2")
check(r.returncode != 0, "self-dependency was accepted")
check(not os.path.exists("log"), "a step ran although the graph is cyclic")
''')

bug(id="c30-late-check", prop="C30",
    edits=[(S, '''        if len(non_dependable_targets) == 0:
            raise NoOneNonDependableTarget()

        self.connectivity_check(self.deptargets, non_dependable_targets)
''', '''        if len(non_dependable_targets) == 0:
            raise NoOneNonDependableTarget()

        if len(self.deptargets) > len(non_dependable_targets) * 2:
            self.connectivity_check(self.deptargets, non_dependable_targets)
''')],
    needs="a cycle in a graph at least half of whose targets depend on nothing",
    breaks="Shallow graphs are not checked for cycles: steps of them run.",
    demo='''
put("make.py", """
import licant
from licant.core import default_core
def low(t):
    open("log", "a").write("x")
core = default_core()
for i in range(3):
    core.updtarget("low%d" % i, update=low, update_if=lambda s: True)
core.updtarget("a", deps=["low0", "low1", "low2", "b"], update=low, update_if=lambda s: True)
core.updtarget("b", deps=["a"], update=low, update_if=lambda s: True)
licant.ex("a")
""")
r = run("make.py", "-j2")
check(r.returncode != 0, "cycle was accepted")
check(not os.path.exists("log"), "a step ran although the graph is cyclic")
''')

bug(id="c07-glob-first", prop="C07",
    edits=[(C, '''                ret.extend(glob.glob(d))
''', '''                ret.extend(f for f in glob.glob(d) if licant.make.default_core().has(f) or not ret)
''')],
    needs="a wildcard dependency which matches files not mentioned elsewhere, after another dependency of the same target; then an edit of one of them",
    breaks="Matches of a wildcard that follow another dependency are dropped unless they are declared already: edits of them go unnoticed.",
    demo='''
put("g/a.in", "1"); put("g/b.in", "1"); put("head.txt", "H")
put("make.py", """
import licant
licant.makefile(tgt="out.txt", deps=["head.txt", "g/*.in"], do="cat head.txt g/*.in > {tgt}", message="A")
licant.ex("out.txt")
""")
check(run("make.py", "-j2").returncode == 0, "build failed")
for f in ("g/b.in", "g/a.in"):
    time.sleep(0.05); put(f, "2")
    check(run("make.py", "-j2").returncode == 0, "build failed")
check(get("out.txt") == "H22", "edit of a file matched by a wildcard was not noticed: " + get("out.txt"))
''')
