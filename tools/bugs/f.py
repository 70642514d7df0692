BUGS = []
def bug(**k): BUGS.append(k)
M, S, C = "licant/make.py", "licant/solver.py", "licant/core.py"

bug(id="c05-status-128", prop="C05",
    edits=[(M, '''    return True if ret == 0 else False''', '''    return (ret & 0x7f) == 0''')],
    needs="a command whose exit status is a multiple of 128 (git, rsync and others use 128)",
    breaks="The status is masked as if it came from waitpid: a command that exits with 128 counts as successful.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="a.txt", deps=[], do="echo a > {tgt}; exit 128", message="A")
licant.makefile(tgt="b.txt", deps=["a.txt"], do="cp a.txt {tgt}", message="B")
licant.ex("b.txt")
''')
r = run("make.py", "-j2")
check(r.returncode != 0, "step exited with 128, build reports success: " + r.stdout[-200:])
""")

bug(id="c11-blank-output", prop="C11",
    edits=[(M, '''            with _rlock:
                print(*args, **kwargs)
''', '''            if not "".join(str(a) for a in args).strip():
                return
            with _rlock:
                print(*args, **kwargs)
''')],
    needs="a command that prints only white space on one of its streams",
    breaks="Output without visible characters is dropped: blank lines a command prints are not relayed.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="a.txt", deps=[], do="printf ' \\\\t  \\\\t\\\\t  \\\\n'; echo seen >&2; touch {tgt}", message=licant.util.quite())
licant.ex("a.txt")
''')
r = run("make.py")
check("seen" in r.stdout, "output on the other stream is missing: " + repr(r.stdout))
check(" \\t  \\t\\t  \\n" in r.stdout, "blank output is missing: " + repr(r.stdout))
""")

bug(id="c11-progress-bars", prop="C11",
    edits=[(M, '''            with _rlock:
                print(*args, **kwargs)
''', '''            args = ["\\n".join(str(a).splitlines()) + str(a)[len(str(a).rstrip("\\n")):] for a in args]
            with _rlock:
                print(*args, **kwargs)
''')],
    needs="a command whose output has carriage returns or form feeds, like a progress bar",
    breaks="Output is cut into lines with splitlines and joined again: what a progress bar draws comes out changed.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="a.txt", deps=[], do="printf '10%%\\\\r90%%\\\\r\\\\ndone\\\\n'; touch {tgt}", message=licant.util.quite())
licant.ex("a.txt")
''')
r = subprocess.run([sys.executable, "make.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
check(b"10%\\r90%\\r\\ndone\\n" in r.stdout, "output of the command is not as it was: " + repr(r.stdout))
""")

bug(id="c13-inputs-or-directory", prop="C13",
    edits=[(M, '''                deps = deps + [dirpath]
''', '''                deps = deps + [dirpath] if len(deps) < 2 else deps
''')],
    needs="an output with several inputs, in a directory that does not exist yet",
    breaks="An output with more than one dependency does not wait for its directory.",
    demo="""
put("a.txt", "a")
put("c.txt", "c")
put("make.py", '''
import licant
licant.source("a.txt")
licant.source("c.txt")
licant.makefile(tgt="build/deep/b.txt", deps=["a.txt", "c.txt"], do="cp a.txt {tgt}", message="B")
licant.ex("build/deep/b.txt")
''')
r = run("make.py", "-j4")
check(r.returncode == 0 and os.path.exists("build/deep/b.txt"), "step found no directory for its output: " + r.stdout)
""")

bug(id="c07-directory-first", prop="C07",
    edits=[(M, '''            depmtime = dep.mtime()
            if depmtime > maxtime:
''', '''            depmtime = dep.mtime()
            if isinstance(dep, DirectoryTarget):
                break
            if depmtime > maxtime:
''')],
    needs="a rule that names a directory target in front of its inputs, and an input edited later",
    breaks="The search for the newest input stops at the first directory: edits of inputs named after it are not noticed.",
    demo="""
put("a.txt", "one")
put("make.py", '''
import licant
licant.make.makedir("out")
licant.source("a.txt")
licant.makefile(tgt="out/b.txt", deps=["out", "a.txt"], do="cp a.txt {tgt}", message="B")
licant.ex("out/b.txt")
''')
r = run("make.py")
check(r.returncode == 0 and get("out/b.txt") == "one", "first build: " + r.stdout)
time.sleep(1.1)
put("a.txt", "two")
r = run("make.py")
check(r.returncode == 0 and get("out/b.txt") == "two", "edited input was not noticed: " + r.stdout)
""")

bug(id="c02-some-of-many", prop="C02",
    edits=[(C, '''        for dep in self.get_deplist():
            if dep.recursive_update_needed_request():
''', '''        for dep in self.get_deplist()[:16]:
            if dep.recursive_update_needed_request():
''')],
    needs="a target with more than sixteen dependencies of which only a late one is out of date, for a reason other than its time",
    breaks="Only the first sixteen dependencies are asked whether they will be rebuilt: a target with many is not rebuilt with the last of them.",
    demo="""
put("make.py", '''
import licant
for i in range(20):
    licant.makefile(tgt="p%02d.txt" % i, deps=[], do="echo $(cat n) > {tgt}", message="P")
licant.makefile(tgt="all.txt", deps=["p%02d.txt" % i for i in range(20)], do="cat p*.txt > {tgt}", message="ALL")
licant.ex("all.txt")
''')
put("n", "1")
r = run("make.py", "-j4")
check(r.returncode == 0 and get("all.txt") == "1\\n" * 20, "first build: " + r.stdout)
time.sleep(1.1)
put("n", "2")
os.remove("p19.txt")
r = run("make.py", "-j4")
check(r.returncode == 0 and get("all.txt") == "1\\n" * 19 + "2\\n", "target was not rebuilt with its last dependency: " + get("all.txt")[-6:])
""")

bug(id="c01-early-release", prop="C01",
    edits=[(S, '''        result = await self.deptarget.doit()
        async with self.task_invoker.mtx:
            for dep in self.inverse_deps:
                await dep.decrease_inverse_deps_count()
        return result
''', '''        result = await self.deptarget.doit()
        async with self.task_invoker.mtx:
            while self.inverse_deps:
                dep = self.inverse_deps.pop()
                await dep.decrease_inverse_deps_count()
                if len(self.inverse_deps) > 3 and dep.depcount == 1:
                    await dep.decrease_inverse_deps_count()
        return result
'''), (S, '''        self.depcount -= 1
        if self.depcount == 0:
            await self.task_invoker.add_target(self)
        assert self.depcount >= 0
''', '''        if self.depcount > 0:
            self.depcount -= 1
            if self.depcount == 0:
                await self.task_invoker.add_target(self)
''')],
    needs="a step with more than four dependents, one of which waits for one more step that is still running",
    breaks="A dependent that waits for only one more step is released as soon as a popular step finishes.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="a.txt", deps=[], do="echo a > {tgt}", message="A")
for i in range(12):
    licant.makefile(tgt="s%d.txt" % i, deps=[], do="sleep 1; echo s > {tgt}", message="S")
    licant.makefile(tgt="w%d.txt" % i, deps=["a.txt", "s%d.txt" % i], do="cat a.txt s%d.txt > {tgt}" % i, message="W")
licant.fileset("all", targets=["w%d.txt" % i for i in range(12)])
licant.ex("all")
''')
r = run("make.py", "-j16")
check(r.returncode == 0, "a step started before what it depends on was finished: " + r.stdout[-300:])
""")
