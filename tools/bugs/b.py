BUGS = []
def bug(**k): BUGS.append(k)
M, C, S, U, I, L, X = ("licant/make.py", "licant/core.py", "licant/solver.py", "licant/util.py", "licant/install.py",
                       "licant/licant_libs.py", "licant/cxx_modules.py")

bug(id="c01-copy-adddeps", prop="C01",
    edits=[(M, "            deps=[src] + dirdeps + deps,\n            use_dirkeep=False,\n            message=message,\n        ))\n\n    def source",
               "            deps=[src] + dirdeps,\n            use_dirkeep=False,\n            message=message,\n        ))\n\n    def source")],
    needs="a copy with additional dependencies declared through a MakeCore",
    breaks="Additional dependencies of a copy are forgotten: the copy does not wait for them.",
    demo='''
put("make.py", """
import licant
from licant.make import MakeCore
core = MakeCore()
core.ftarget("stamp.txt", exec="sleep 0.5; echo s > {tgt}", deps=[])
core.copy("make.py", "out.txt", deps=["stamp.txt"])
licant.ex("out.txt", core=core)
""")
r = run("make.py", "-j2")
check(r.returncode == 0 and os.path.exists("stamp.txt"), "copy did not wait for what it depends on: " + r.stdout)
''')

bug(id="c02-retry", prop="C02",
    edits=[(S, '''        task = asyncio.to_thread(self.doit_impl)
        result = await task
''', '''        result = await asyncio.to_thread(self.doit_impl)
        if result is False and not self._is_done:
            result = await asyncio.to_thread(self.doit_impl)
''')],
    needs="a step that fails",
    breaks="A step that failed is executed a second time in the same build.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="a.txt", deps=[], do="echo x >> log; false", message="A")
licant.ex("a.txt")
""")
r = run("make.py", "-j2")
check(get("log").count("x") == 1, "failed step was executed again")
''')

bug(id="c03-bounded-queue", prop="C03",
    edits=[(S, "self.queue = asyncio.Queue()", "self.queue = asyncio.Queue(maxsize=32 + threads_count)")],
    needs="a graph with more steps ready at once than the queue holds (over 32 independent steps)",
    breaks="The queue of ready steps is bounded; putting the first steps into it waits for workers which are not started yet, for ever.",
    demo='''
put("make.py", """
import licant
ts = [licant.makefile(tgt="o%d.txt" % i, deps=[], do="touch {tgt}", message="O").tgt for i in range(60)]
licant.fileset("all", targets=ts)
licant.ex("all")
""")
try:
    r = run("make.py", "-j4", timeout=60)
except subprocess.TimeoutExpired:
    check(False, "build hangs")
check(r.returncode == 0, "build failed: " + r.stdout[-300:])
''')

bug(id="c04-late-flag", prop="C04",
    edits=[(S, '''                    self.error_while_execution = True
                    print(
                        f"{red('LicantError')}: Error while executing task {task.name()}")
                    break
''', '''                    await asyncio.to_thread(
                        print, f"{red('LicantError')}: Error while executing task {task.name()}")
                    self.error_while_execution = True
                    break
''')],
    needs="more than one job: another worker takes a dependent step while the message about the failure is being printed",
    breaks="The failure is announced before it is noted; in between other workers start steps that depend on the failed one.",
    demo='''
put("make.py", """
import licant, builtins, time
real = builtins.print
def slow(*a, **k):
    if a and "Error while" in str(a[0]):
        time.sleep(0.3)
    real(*a, **k)
import licant.solver
licant.solver.print = slow
licant.makefile(tgt="a.txt", deps=[], do="false", message="A")
licant.makefile(tgt="b.txt", deps=["a.txt"], do="echo x >> log", message="B")
licant.ex("b.txt")
""")
r = run("make.py", "-j3")
check(r.returncode != 0, "failure is not reported")
check(not os.path.exists("log"), "step that depends on the failed one was started")
''')

bug(id="c05-double-spelling", prop="C05",
    edits=[(S, "self.deps = set(deps)", "self.deps = list(deps)")],
    needs="a target that names one dependency by two spellings of its path",
    breaks="A dependency named twice with different spellings makes the whole build be refused.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="out.txt", deps=["a.txt", "./a.txt"], do="cp a.txt {tgt}", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py", "-j2")
check(r.returncode == 0 and os.path.exists("out.txt"), "build refused: " + r.stdout[-300:])
''')

bug(id="c06-threads-argument", prop="C06",
    edits=[(C, '''        if "threads" in self.core.runtime:
            threads = self.core.runtime["threads"]
        if threads is None:
            threads = 1
''', '''        if threads is None:
            threads = self.core.runtime["threads"] or 1
''')],
    needs="a build requested through an action that passes no job count",
    breaks="The default argument wins over the requested job count: builds of file targets run one step at a time.",
    demo='''
put("make.py", """
import licant
for i in range(2):
    licant.makefile(tgt="w%d.txt" % i, deps=[],
        do="touch s%d; n=0; while [ $n -lt 30 ]; do [ -e s0 -a -e s1 ] && echo ok > {tgt} && exit 0; sleep 0.1; n=$((n+1)); done; echo alone > {tgt}" % i, message="W")
licant.fileset("all", targets=["w0.txt", "w1.txt"])
licant.ex("all")
""")
r = run("make.py", "-j2")
check(r.returncode == 0 and get("w0.txt").strip() == "ok", "two ready steps were not run by two jobs")
''')

bug(id="c08-session-dirs", prop="C08",
    edits=[(M, '''    def mtime(self):
        return 0

    def update_if_need(self):
        if self.internal''', '''    def mtime(self):
        self.update_info()
        return FileTarget.mtime(self)

    def update_if_need(self):
        if self.internal''')],
    needs="a second build in the process that created the directories of the outputs, with several outputs per directory",
    breaks="Directories count with their modification time, which changes with every file in them: outputs are rebuilt for nothing.",
    demo='''
put("make.py", """
import licant, os
licant.makefile(tgt="build/a.txt", deps=[], do="echo x >> log; echo a > {tgt}", message="A")
licant.makefile(tgt="build/b.txt", deps=["build/a.txt"], do="echo x >> log; sleep 0.1; echo b > {tgt}", message="B")
print(licant.do("build/b.txt", "makefile"))
print(licant.do("build/b.txt", "makefile"))
""")
r = run("make.py")
check(r.returncode == 0 and get("log").count("x") == 2, "up to date steps were executed again: " + r.stdout)
''')

bug(id="c10-clean-sources", prop="C10",
    edits=[(M, '''            message="SOURCE {tgt}"
        ))
        target.clr = None
''', '''            message="SOURCE {tgt}"
        ))
''')],
    needs="clean of a target declared in a MakeCore",
    breaks="Clean deletes source files.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
from licant.make import MakeCore
core = MakeCore()
core.copy("a.txt", "out.txt")
core.do("out.txt")
core.do("out.txt", "clean")
""")
r = run("make.py")
check(os.path.exists("a.txt"), "clean has removed a source: " + r.stdout)
check(not os.path.exists("out.txt"), "clean has not removed the output")
''')

bug(id="c12-dep-without-headers", prop="C12",
    edits=[(X, "src=s, tgt=d, opts=cxxopts, deps=[s] + adddeps + headers, force=force", "src=s, tgt=d, opts=cxxopts, deps=[s] + adddeps, force=force")],
    needs="an edit that makes a header include another header, a build, then an edit of that other header",
    breaks="Dependency files are not renewed when a header changes, so headers included by headers later are unknown.",
    demo='''
put("main.c", '#include "a.h"\\nint main(void) { return V; }\\n')
put("a.h", "#define V 1\\n")
put("b.h", "#define V 2\\n")
put("make.py", """
import licant
from licant.cxx_modules import application
application("app", sources=["main.c"], toolchain=licant.gcc_toolchain())
licant.ex("app")
""")
def build(want):
    r = run("make.py", "-j2")
    check(r.returncode == 0, "build failed: " + r.stdout)
    rc = subprocess.run(["./app"]).returncode
    check(rc == want, "application was made of old headers: %d instead of %d" % (rc, want))
build(1)
time.sleep(0.05); put("a.h", '#include "b.h"\\n'); build(2)
time.sleep(0.05); put("b.h", "#define V 3\\n"); build(3)
''')

bug(id="c12-empty-dep", prop="C12",
    edits=[(U, '''        if len(text) == 0:
            return None
''', '''        if len(text) == 0:
            return []
''')],
    needs="a dependency file left empty by a process killed at that moment, then an edit of a header",
    breaks="An empty dependency file is taken for a list of no headers and is not renewed.",
    demo='''
put("main.c", '#include "a.h"\\nint main(void) { return V; }\\n')
put("a.h", "#define V 1\\n")
put("make.py", """
import licant
from licant.cxx_modules import application
application("app", sources=["main.c"], toolchain=licant.gcc_toolchain())
licant.ex("app")
""")
r = run("make.py", "-j2")
check(r.returncode == 0, "build failed: " + r.stdout)
ds = subprocess.run("find . -name main.d", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
for d in ds:
    put(d, "")              # what a compiler killed at the start leaves
time.sleep(0.05)
r = run("make.py", "-j2")
check(r.returncode == 0, "build failed: " + r.stdout)
time.sleep(0.05); put("a.h", "#define V 2\\n")
r = run("make.py", "-j2")
check(r.returncode == 0 and subprocess.run(["./app"]).returncode == 2, "application was made of old headers")
''')

bug(id="c15-keeps-first", prop="C15",
    edits=[(L, "    paths[name] = abspath\n", "    paths.setdefault(name, abspath)\n")],
    needs="a library registered again with another path",
    breaks="A library cannot be replaced: the path given first stays.",
    demo='''
import json
put("a.g.py", ""); put("b.g.py", "")
put("run.py", "import licant.licant_libs as L\\nL.licant_libs_utility()\\n")
os.mkdir("h")
env = {"HOME": W + "/h"}
run("run.py", "-u", "x", "a.g.py", env=env)
r = run("run.py", "-u", "x", "b.g.py", env=env)
check(json.load(open("h/.licant"))["x"].endswith("/b.g.py"), "path given last is not in the registry: " + r.stdout)
''')

bug(id="c16-no-reinstall", prop="C16",
    edits=[(I, '''    tgt = os.path.join(libraries_path, newname)
    licant.make.copy(tgt=tgt, src=src)
''', '''    tgt = os.path.join(libraries_path, newname)
    if os.path.exists(tgt):
        licant.make.source(tgt)
    else:
        licant.make.copy(tgt=tgt, src=src)
''')],
    needs="an install of a library that is installed already in an older version",
    breaks="A shared library that is installed already is not replaced by the current one.",
    demo='''
put("libx.so", "1")
put("make.py", """
import licant, licant.install
licant.source("libx.so")
t = licant.install.install_shared_library("libx.so")
licant.fileset("install", targets=[t])
licant.ex("install")
""")
os.makedirs("pre/lib")
env = {"PREFIX": W + "/pre"}
r = run("make.py", "install", env=env)
check(r.returncode == 0 and get("pre/lib/libx.so") == "1", "install failed: " + r.stdout)
time.sleep(0.05)
put("libx.so", "2")
r = run("make.py", "install", env=env)
check(r.returncode == 0 and get("pre/lib/libx.so") == "2", "old library stays installed: " + r.stdout)
''')

bug(id="c18-only-outdated", prop="C18",
    edits=[(C, '''        for target in self._targets.values():
            target.nullify_update_needity()
''', '''        for target in self._targets.values():
            if getattr(target, "need_update", None) is not False:
                target.nullify_update_needity()
''')],
    needs="two builds in one process with an announced edit of a source in between, the target having been up to date at the first",
    breaks="What was up to date once in a process is never examined again.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant, time
from licant.core import get_target
licant.source("a.txt")
licant.makefile(tgt="out.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="OUT")
licant.do("out.txt", "makefile")
licant.do("out.txt", "makefile")
time.sleep(0.05)
open("a.txt", "w").write("2")
get_target("a.txt").update_info()
licant.do("out.txt", "makefile")
""")
r = run("make.py")
check(r.returncode == 0 and get("out.txt") == "2", "edit between builds of one process is not noticed: " + r.stdout)
''')
