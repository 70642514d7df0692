BUGS = []
def bug(**k): BUGS.append(k)
M, C, S, U = "licant/make.py", "licant/core.py", "licant/solver.py", "licant/util.py"

bug(id="c01-nonfile-deps", prop="C01",
    edits=[(C, "deps_as_targets_names = [self.core.get(d).tgt for d in d.deps]",
               "deps_as_targets_names = [self.core.get(x).tgt for x in d.deps\n"
               "                                     if self.core.get(x).is_file() or not d.is_file()]")],
    needs="a file target which depends on a routine, more than one job and a routine that takes time",
    breaks="File targets no longer wait for non-file dependencies (routines, updtargets): the command starts while the routine is running.",
    demo='''
put("make.py", """
import licant, time
from licant.core import routine
@routine(tgt="gen")
def gen():
    time.sleep(0.7)
    open("gen.txt", "w").write("generated")
licant.makefile(tgt="out.txt", deps=["gen"], do="cat gen.txt > {tgt}", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py", "-j4")
check(r.returncode == 0 and get("out.txt") == "generated", "step started before the routine it depends on: " + r.stdout)
''')

bug(id="c02-two-spellings", prop="C02",
    edits=[(C, "depset = {self.core.get(d) for d in depset}", "depset = [self.core.get(d) for d in depset]")],
    needs="one file reached through two spellings of its path in one dependency tree",
    breaks="A target that is named by two spellings gets two entries in the solver and its command is run twice in one build.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="m.txt", deps=["a.txt"], do="echo x >> log; cp a.txt {tgt}", message="M")
licant.makefile(tgt="p.txt", deps=["m.txt"], do="cp m.txt {tgt}", message="P")
licant.makefile(tgt="q.txt", deps=["./m.txt"], do="cp m.txt {tgt}", message="Q")
licant.makefile(tgt="out.txt", deps=["p.txt", "q.txt"], do="cat p.txt q.txt > {tgt}", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py", "-j2")
check(r.returncode == 0, "build failed: " + r.stdout)
check(get("log").count("x") == 1, "step was executed %d times" % get("log").count("x"))
''')

bug(id="c03-failed-worker-leaves", prop="C03",
    edits=[(S, '''                        f"{red('LicantError')}: Error while executing task {task.name()}")
                    break
''', '''                        f"{red('LicantError')}: Error while executing task {task.name()}")
                    return
''')],
    needs="a failing step while more ready steps are queued than there are live workers to discard them",
    breaks="The worker that saw the failure leaves without draining the queue; when every worker has left, queued steps are never taken and the build hangs.",
    demo='''
put("make.py", """
import licant
ts = []
for i in range(4):
    ts.append(licant.makefile(tgt="o%d.txt" % i, deps=[], do="false", message="O").tgt)
licant.fileset("all", targets=ts)
licant.ex("all")
""")
try:
    r = run("make.py", "-j1", timeout=20)
except subprocess.TimeoutExpired:
    check(False, "build hangs after a failed step")
check(r.returncode != 0, "failure is not reported")
''')

bug(id="c05-retired-workers-steal", prop="C05",
    edits=[(S, "if all(self.thread_on_base) and self.queue.empty():", "if self.queue.empty():")],
    needs="two or more jobs and a graph that becomes narrow and then wide again: a worker that found the queue empty discards steps that become ready later",
    breaks="A worker that sees the queue empty goes to the draining loop although others still run and throws away the steps they make ready: a build in which every step succeeded crashes with an assertion.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="a.txt", deps=[], do="sleep 0.6; echo a > {tgt}", message="A")
licant.makefile(tgt="b.txt", deps=[], do="echo b > {tgt}", message="B")
for i in range(6):
    licant.makefile(tgt="w%d.txt" % i, deps=["a.txt"], do="sleep 0.05; echo w > {tgt}", message="W")
licant.fileset("all", targets=["b.txt"] + ["w%d.txt" % i for i in range(6)])
licant.ex("all")
""")
try:
    r = run("make.py", "-j2", timeout=30)
except subprocess.TimeoutExpired:
    check(False, "build hangs")
check(r.returncode == 0, "build failed although every step succeeds: " + r.stdout)
check(all(os.path.exists("w%d.txt" % i) for i in range(6)), "steps were thrown away")
''')

bug(id="c04-queued-after-failure", prop="C04",
    edits=[(S, '''                    if (self.error_while_execution):
                        break

                    async with self.mtx:
                        self.thread_on_base[no] = False
''', '''                    async with self.mtx:
                        self.thread_on_base[no] = False
                    if (self.error_while_execution and queue.empty()):
                        break
'''),
           (S, '''                if (self.error_while_execution):
                    break

                if self.trace:''', '''                if (self.error_while_execution and queue.empty()):
                    break

                if self.trace:''')],
    needs="a step fails while at least two steps are queued and another worker becomes free for them",
    breaks="A worker takes queued steps after the failure was noticed as long as the queue is not empty.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="bad.txt", deps=[], do="sleep 0.5; exit 3", message="BAD")
licant.makefile(tgt="slow.txt", deps=[], do="sleep 1; echo s > {tgt}", message="SLOW")
licant.makefile(tgt="a.txt", deps=["slow.txt"], do="echo x >> log; echo a > {tgt}", message="A")
licant.makefile(tgt="b.txt", deps=["slow.txt"], do="echo x >> log; echo b > {tgt}", message="B")
licant.makefile(tgt="c.txt", deps=["slow.txt"], do="echo x >> log; echo b > {tgt}", message="C")
licant.fileset("all", targets=["bad.txt", "a.txt", "b.txt", "c.txt"])
licant.ex("all")
""")
r = run("make.py", "-j6", timeout=30)
check(r.returncode != 0, "failure is not reported")
check(not os.path.exists("log"), "steps were started after the failure")
''')

bug(id="c05-killed-by-signal", prop="C05",
    edits=[(M, "return True if ret == 0 else False", "return False if ret > 0 else True")],
    needs="a command that is killed by a signal",
    breaks="A command killed by a signal has a negative return code, which is taken for success: the build goes on and reports success.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="a.txt", deps=[], do="echo a > {tgt}; kill -9 $$", message="A")
licant.makefile(tgt="b.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="B")
licant.ex("b.txt")
""")
r = run("make.py", "-j2")
check(r.returncode != 0, "step killed by signal, build reports success")
''')

bug(id="c06-workers-retire", prop="C06",
    edits=[(S, '''                    if all(self.thread_on_base) and self.queue.empty():
                        break
''', '''                    if self.thread_on_base.count(True) > 1 and self.queue.empty():
                        return
''')],
    needs="more jobs than ready steps for a moment, then a wide part of the graph",
    breaks="Workers that find nothing to do retire for good, so later parts of the build use fewer jobs than requested although steps are ready.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="a.txt", deps=[], do="sleep 0.6; echo a > {tgt}", message="A")
licant.makefile(tgt="b.txt", deps=[], do="echo b > {tgt}", message="B")
licant.makefile(tgt="c.txt", deps=[], do="sleep 0.1; echo b > {tgt}", message="B")
for i in range(3):
    licant.makefile(tgt="w%d.txt" % i, deps=["a.txt"],
        do="touch s%d; n=0; while [ $n -lt 40 ]; do [ -e s0 -a -e s1 -a -e s2 ] && echo ok > {tgt} && exit 0; sleep 0.1; n=$((n+1)); done; echo alone > {tgt}" % i, message="W")
licant.fileset("all", targets=["b.txt", "c.txt"] + ["w%d.txt" % i for i in range(3)])
licant.ex("all")
""")
r = run("make.py", "-j3", timeout=100)
check(r.returncode == 0, "build failed: " + r.stdout)
check(all(get("w%d.txt" % i).strip() == "ok" for i in range(3)), "three ready steps were not run by three jobs")
''')

bug(id="c07-rounded-times", prop="C07",
    edits=[("licant/cache.py", "self.mtime = os.stat(path).st_mtime", "self.mtime = round(os.stat(path).st_mtime, 2)")],
    needs="a source edited later than its output but within the same hundredth of a second",
    breaks="Modification times are rounded to hundredths of a second, an edit within that time of the last build is never noticed.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="out.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py")
check(r.returncode == 0, "build failed: " + r.stdout)
put("a.txt", "2")
base = 1700000000
os.utime("out.txt", ns=(base * 10**9 + 101000000,) * 2)
os.utime("a.txt", ns=(base * 10**9 + 103000000,) * 2)
r = run("make.py")
check(r.returncode == 0 and get("out.txt") == "2", "edited source was not noticed: " + r.stdout)
''')

bug(id="c07-fileset-first", prop="C07",
    edits=[(M, "            if mtime is not None and mtime > maxtime:\n", "            if mtime is not None and maxtime == 0:\n")],
    needs="a file that depends on a fileset of several sources, and an edit of one that does not come last in it",
    breaks="The time of a fileset is the time of one of its members only, edits of the others do not rebuild what depends on the fileset.",
    demo='''
put("a.txt", "1"); put("b.txt", "1")
put("make.py", """
import licant, os
licant.source("a.txt")
licant.source("b.txt")
licant.fileset("outer", targets=["a.txt", "b.txt"] if not os.path.exists("swap") else ["b.txt", "a.txt"])
licant.makefile(tgt="out.txt", deps=["outer"], do="cp a.txt {tgt}", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py")
check(r.returncode == 0, "build failed: " + r.stdout)
for i in range(2):
    t = os.stat("out.txt").st_mtime
    put("a.txt", "x%d" % i)
    os.utime("a.txt", (t + 5, t + 5))
    os.utime("b.txt", (t - 5, t - 5))
    r = run("make.py")
    check(r.returncode == 0 and get("out.txt") == "x%d" % i, "edit of a member of a fileset was not noticed: " + r.stdout)
    os.utime("out.txt", (t + 6, t + 6))
    put("swap", "")
''')

bug(id="c08-equal-times", prop="C08",
    edits=[(M, "if maxtime > self.mtime():", "if maxtime >= self.mtime() and maxtime > 0:")],
    needs="an output and its newest dependency with equal time stamps (coarse time stamps)",
    breaks="A file as old as its dependency is taken for out of date; with coarse time stamps a repeated build runs steps again.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="m.txt", deps=["a.txt"], do="cp a.txt {tgt}; echo x >> log", message="M")
licant.makefile(tgt="out.txt", deps=["m.txt"], do="cp m.txt {tgt}; echo x >> log", message="OUT")
licant.ex("out.txt")
""")
r = run("make.py")
check(r.returncode == 0, "build failed: " + r.stdout)
for f in ("a.txt", "m.txt", "out.txt"):
    os.utime(f, (1700000000, 1700000000))
n = get("log").count("x")
r = run("make.py")
check(r.returncode == 0 and get("log").count("x") == n, "up to date steps were executed again")
''')

bug(id="c10-clean-directories", prop="C10",
    edits=[(M, '''        """Prevent directory deletion."""
        pass
''', '''        """Delete this directory."""
        return do_execute(self, "rm -rf {tgt}", "clrmsg")
''')],
    needs="clean of a target whose output directory did not exist when the script was loaded in the same process, with other files in it",
    breaks="Clean removes the directories licant created together with all foreign files in them.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant, os
licant.source("a.txt")
licant.makefile(tgt="build/out.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="OUT")
ok = licant.do("build/out.txt", "makefile")
open("build/notes.txt", "w").write("mine")
licant.do("build/out.txt", "clean")
""")
r = run("make.py")
check(r.returncode == 0, "run failed: " + r.stdout)
check(os.path.exists("build/notes.txt"), "clean has removed a foreign file")
check(not os.path.exists("build/out.txt"), "clean has not removed the output")
''')

bug(id="c11-line-by-line", prop="C11",
    edits=[(M, '''            with _rlock:
                print(*args, **kwargs)
''', '''            for text in args:
                for line in str(text).splitlines(True):
                    with _rlock:
                        print(line, **kwargs)
''')],
    needs="two commands with several lines of output finishing at about the same time",
    breaks="The lock is taken per line, so outputs of concurrent commands are interleaved line by line.",
    demo='''
put("make.py", """
import licant
for i in range(8):
    licant.makefile(tgt="o%d.txt" % i, deps=[], do="while [ ! -e go ]; do [ -e o7.started ] && touch go; touch o%d.started; sleep 0.01; done; seq -f 'O%d-%%g' 1 4000; touch {tgt}" % (i, i), message=licant.util.quite())
licant.fileset("all", targets=["o%d.txt" % i for i in range(8)])
licant.ex("all")
""")
r = run("make.py", "-j8", "-q")
check(r.returncode == 0, "build failed: " + r.stdout[-300:])
owners = [l.split("-")[0] for l in r.stdout.splitlines() if l.startswith("O") and "-" in l]
check(len(owners) == 8 * 4000, "output is not whole: %d lines" % len(owners))
changes = sum(1 for a, b in zip(owners, owners[1:]) if a != b)
check(changes == 7, "outputs of commands are mixed: %d switches" % changes)
''')

bug(id="c13-second-output", prop="C13",
    edits=[(M, '''            if not os.path.exists(dirpath):
                dirkeep(dirpath)
                deps = deps + [dirpath]
''', '''            if not os.path.exists(dirpath) and not default_core().has(dirpath):
                dirkeep(dirpath)
                deps = deps + [dirpath]
''')],
    needs="two outputs in one missing directory, the second built alone or before the first",
    breaks="Only the first output declared in a new directory depends on its creation, the others may start before the directory exists.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="build/a.txt", deps=[], do="echo a > {tgt}", message="A")
licant.makefile(tgt="build/b.txt", deps=[], do="echo b > {tgt}", message="B")
licant.ex("build/b.txt")
""")
r = run("make.py")
check(r.returncode == 0 and os.path.exists("build/b.txt"), "step found no directory for its output: " + r.stdout)
''')

bug(id="c14-save-each", prop="C14",
    edits=[("licant/licant_libs.py", '''            path = f
            add_record(name, path)
''', '''            path = f
            add_record(name, path)
            save_records(paths_file)
''')],
    needs="a crash or error between two of the libraries of one directory-add",
    breaks="Adding a directory saves the registry after every library: a crash in between leaves a part of the update.",
    demo='''
for n in "abc":
    put("lib/%s.g.py" % n, "")
os.mkdir("h")
put("run.py", """
import os, sys
sys.argv = ["licant-libs", "-u", "lib"]
import licant.licant_libs as L
count = [0]
real = os.replace
def replace(a, b):
    count[0] += 1
    if count[0] > 1:
        os._exit(137)
    real(a, b)
os.replace = replace
try:
    L.licant_libs_utility()
finally:
    if count[0] == 1:
        os._exit(0)
""")
import json
r = run("run.py", env={"HOME": W + "/h"})
reg = json.load(open("h/.licant")) if os.path.exists("h/.licant") else {}
check(len(reg) in (0, 3), "registry holds a part of one update: " + str(sorted(reg)))
''')

bug(id="c15-system-wins", prop="C15",
    edits=[("licant/libs.py", "libs = merge_two_dicts(glibs, llibs)", "libs = merge_two_dicts(llibs, glibs)")],
    needs="the same library registered in the system-wide and the user registry with different paths",
    breaks="The system-wide entry hides the entry of the user.",
    demo='''
put("h/.licant", '{"lib": "%s/user.py"}' % W)
put("sys.json", '{"lib": "%s/system.py"}' % W)
put("user.py", "print('USER')")
put("system.py", "print('SYSTEM')")
put("make.py", """
import licant, licant.libs
licant.libs.gpath = "sys.json"
licant.include("lib")
""")
r = run("make.py", env={"HOME": W + "/h"})
check("USER" in r.stdout and "SYSTEM" not in r.stdout, "entry of user does not win: " + r.stdout)
''')

bug(id="c16-uninstall-fileset", prop="C16",
    edits=[("licant/install.py", "weakdeps=rawtgts + ltgt", "weakdeps=tgts")],
    needs="uninstall of a library with headers",
    breaks="Uninstall is bound to the fileset of the headers instead of the headers, so installed headers stay after uninstall.",
    demo='''
put("proj/a.h", "//a")
put("make.py", """
import licant, licant.install
licant.install.install_library(tgt="install", uninstall="uninstall", hroot="pkg", headers="proj")
licant.ex("install")
""")
os.mkdir("pre")
env = {"PREFIX": W + "/pre"}
r = run("make.py", "install", env=env)
check(r.returncode == 0 and os.path.exists("pre/include/pkg/a.h"), "install failed: " + r.stdout)
r = run("make.py", "uninstall", env=env)
check(r.returncode == 0 and not os.path.exists("pre/include/pkg/a.h"), "header stays after uninstall: " + r.stdout)
check(os.path.exists("proj/a.h"), "header of the project was removed")
''')

bug(id="c17-finish-all", prop="C17",
    edits=[(S, '''            self.error_while_execution = True
            all_tasks = asyncio.gather(*self.tasks, return_exceptions=True)
            all_tasks.cancel()
            with contextlib''', '''            all_tasks = asyncio.gather(*self.tasks, return_exceptions=True)
            with contextlib''')],
    needs="interrupt while a step runs and further steps wait for it",
    breaks="After an interrupt the whole build is finished before the interrupt is passed on.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="a.txt", deps=[], do="touch started; sleep 2; echo a > {tgt}", message="A")
licant.makefile(tgt="b.txt", deps=["a.txt"], do="echo b > {tgt}", message="B")
licant.ex("b.txt")
""")
p = subprocess.Popen([sys.executable, "make.py", "-j3"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for i in range(200):
    if os.path.exists("started"): break
    time.sleep(0.05)
time.sleep(0.3)
p.send_signal(signal.SIGINT)
try:
    rc = p.wait(20)
except subprocess.TimeoutExpired:
    p.kill()
    check(False, "process does not end after interrupt")
check(rc != 0, "interrupted build reports success")
check(not os.path.exists("b.txt"), "step was started after interrupt")
''')

bug(id="c18-clean-then-build", prop="C18",
    edits=[(M, '''    if target.is_file():
        target.update_info()

    return True''', '''    if target.is_file() and target.need_update:
        target.update_info()

    return True''')],
    needs="a build, a clean and a build again in one process",
    breaks="Information about a file is refreshed after a command only if the target was going to be updated, so clean leaves stale information and the next build in the same process does nothing.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="out.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="OUT")
print(licant.do("out.txt", "makefile"))
print(licant.do("out.txt", "clean"))
print(licant.do("out.txt", "makefile"))
""")
r = run("make.py")
check(r.returncode == 0 and os.path.exists("out.txt"), "build after clean in one process restores nothing: " + r.stdout)
''')

bug(id="c18-cached-trees", prop="C18",
    edits=[(C, "self.depends_as_set_lazy_cache[tgt] = ret", "self.depends_as_set_lazy_cache[(str(tgt), incroot)] = ret"),
           (C, '''        if (tgt, incroot) in self.depends_as_set_lazy_cache:
            return self.depends_as_set_lazy_cache[(tgt, incroot)]
''', '''        if (str(tgt), incroot) in self.depends_as_set_lazy_cache:
            return self.depends_as_set_lazy_cache[(str(tgt), incroot)]
''')],
    needs="a second action in one process after a target of the tree was declared again with other dependencies",
    breaks="The dependency tree is remembered by name for the whole process, targets added to it by later declarations are not built.",
    demo='''
put("a.txt", "1")
put("make.py", """
import licant
licant.source("a.txt")
licant.makefile(tgt="x.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="X")
licant.fileset("all", targets=["x.txt"])
print(licant.do("all", "makefile"))
licant.makefile(tgt="y.txt", deps=["x.txt"], do="cp x.txt {tgt}", message="Y")
licant.fileset("all", targets=["x.txt", "y.txt"])
print(licant.do("all", "makefile"))
""")
r = run("make.py")
check(r.returncode == 0 and os.path.exists("y.txt"), "target declared later is not built: " + r.stdout)
''')

bug(id="c05-zero-result", prop="C05",
    edits=[(S, "if result is False:", "if result == False:")],
    needs="a step that is a function which returns 0",
    breaks="A step function that returns 0 is taken for a failed one.",
    demo='''
put("make.py", """
import licant
from licant.core import routine
@routine(tgt="gen")
def gen():
    return os.system("true") if False else 0
licant.ex("gen")
""")
r = run("make.py", "-j2")
check(r.returncode == 0, "function returned 0, build is reported as failed: " + r.stdout)
''')
