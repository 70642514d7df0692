BUGS = []
def bug(**k): BUGS.append(k)
M, C, S, U, I, L, X = ("licant/make.py", "licant/core.py", "licant/solver.py", "licant/util.py", "licant/install.py",
                       "licant/licant_libs.py", "licant/cxx_modules.py")
B, Q, K = "licant/libs.py", "licant/scripter.py", "licant/cli.py"

bug(id="c34-late-included", prop="C34",
    edits=[(B, '''    included[lib] = libs[lib]
    print_about_lib(lib, libs[lib])
    scriptq.execute(libs[lib])
''', '''    print_about_lib(lib, libs[lib])
    scriptq.execute(libs[lib])
    included[lib] = libs[lib]
''')],
    needs="two registered libraries that include each other",
    breaks="A library counts as included only once its script has ended: libraries that include each other are executed again and again until Python gives up.",
    demo='''
put("a/a.g.py", "import licant\\nprint('SEEN a')\\nlicant.include('b')\\n")
put("b/b.g.py", "import licant\\nprint('SEEN b')\\nlicant.include('a')\\n")
import json
put(".licant", json.dumps({"a": W + "/a/a.g.py", "b": W + "/b/b.g.py"}))
put("make.py", "import licant\\nlicant.include('a')\\nprint('SEEN end')\\n")
r = run("make.py")
check(r.returncode == 0, "the script fails: " + r.stdout[-300:])
for x in ("a", "b", "end"):
    check(r.stdout.count("SEEN " + x) == 1, "executed %d times: %s" % (r.stdout.count("SEEN " + x), x))
''')

bug(id="c34-recursive-nested", prop="C34",
    edits=[(Q, '''        for f in flst:
            self.__execute(f)
''', '''        for f in flst:
            self.execute(f)
''')],
    needs="a directory of scripts requested by a script that was itself reached by a relative path with a directory in it",
    breaks="The scripts of the directory are looked for below the directory of the requesting script twice: they are not found and the run fails.",
    demo='''
put("sub/parts/x.g.py", "print('SEEN x')\\n")
put("sub/all.g.py", "import licant\\nlicant.execute_recursive('parts', '.g.py')\\nprint('SEEN all')\\n")
put("make.py", "import licant\\nlicant.execute('sub/all.g.py')\\nprint('SEEN end')\\n")
r = run("make.py")
check(r.returncode == 0, "the script fails: " + r.stdout[-300:])
check([x for x in r.stdout.split() if x in ("x", "all", "end")] == ["x", "all", "end"], r.stdout)
''')

bug(id="c34-tunnel-again", prop="C34",
    edits=[(B, '''        else:
            included[lib] = os.path.join(local_tunel[0], local_tunel[1])
            scriptq.execute''', '''        else:
            scriptq.execute''')],
    needs="a library included through a local tunnel that an earlier run has made, by two scripts of one run",
    breaks="A library reached through an existing tunnel is not remembered: it is executed once for every script that includes it.",
    demo='''
import json
put("lib/l.g.py", "print('SEEN l')\\n")
put(".licant", json.dumps({"l": W + "/lib/l.g.py"}))
put("make.py", "import licant\\nlicant.include('l', local_tunel=('tun', 'l.g.py'))\\nlicant.include('l', local_tunel=('tun', 'l.g.py'))\\n")
for i in range(2):
    r = run("make.py")
    check(r.returncode == 0, "the script fails: " + r.stdout[-300:])
    check(r.stdout.count("SEEN l") == 1, "run %d executes the library %d times" % (i, r.stdout.count("SEEN l")))
''')

bug(id="c19-stale-lock", prop="C19",
    edits=[(L, '''    paths_file = licant.libs.lpath if opts.user else licant.libs.gpath
''', '''    if opts.user:
        paths_file = licant.libs.lpath
    else:
        paths_file = licant.libs.gpath

    # Competing updates are refused.
    lock_file = paths_file + ".lock"
    if not opts.list:
        try:
            os.close(os.open(lock_file, os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        except FileExistsError:
            print("Registry {} is being updated".format(paths_file))
            exit(-1)
'''), (L, '''        save_records(paths_file)
    except IOError as e:
''', '''        save_records(paths_file)
        os.remove(lock_file)
    except IOError as e:
''')],
    needs="two updates of one registry at the same time, or an update that was killed before",
    breaks="An update is refused while another one runs, and for ever after one was killed or failed.",
    demo='''
put("a.g.py", "")
cmd = [sys.executable, "-m", "licant.licant_libs", "-u"]
slow = "import time, builtins, licant.licant_libs as l\\nold = l.save_records\\ndef save(p):\\n    time.sleep(3)\\n    old(p)\\nl.save_records = save\\nl.licant_libs_utility()\\n"
p = subprocess.Popen([sys.executable, "-c", slow, "-u", "first", "a.g.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
time.sleep(1.5)
r = subprocess.run(cmd + ["second", "a.g.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
p.communicate()
check(r.returncode == 0, "a command fails because another one runs: " + r.stdout)
check(p.returncode == 0, "the first command fails")
''')

bug(id="c19-empty-removed", prop="C19",
    edits=[(L, '''            del paths[name]
        except:
            print("Unregistred library {}".format(name))
''', '''            del paths[name]
            if not paths:
                # Nothing is left to be kept
                os.remove(paths_file)
                exit(0)
        except KeyError:
            print("Unregistred library {}".format(name))
''')],
    needs="two commands at the same time that each remove the last library of a registry",
    breaks="A registry that becomes empty is deleted: a command that wanted to do the same a moment later dies with an exception.",
    demo='''
import json
put(".licant", json.dumps({"a": W + "/a.g.py"}))
code = """import sys, os, json
real = json.load
def load(f):
    r = real(f)
    if os.environ.get("SECOND"):
        del os.environ["SECOND"]
        import subprocess
        subprocess.run([sys.executable, "-m", "licant.licant_libs", "-u", "-r", "a"], check=True)
    return r
json.load = load
import licant.licant_libs as l
l.licant_libs_utility()
"""
put("one.py", code)
r = run("one.py", "-u", "-r", "a", env={"SECOND": "1"})
check(r.returncode == 0, "removal fails because another command did the same: " + r.stdout[-300:])
''')

bug(id="c14-error-not-status", prop="C14",
    edits=[(L, '''        print("Dump error:")
        print(e)
        exit(-1)
''', '''        print("Dump error: {}".format(e))
''')],
    needs="an update that meets a disk error or a full disk",
    breaks="An update that could not write the registry exits with status zero.",
    demo='''
put("a.g.py", "")
os.symlink("/dev/full", "full")
# a registry below a directory that does not exist cannot be written
code = "import licant.libs, licant.licant_libs as l\\nlicant.libs.lpath = '%s/none/reg'\\nl.licant_libs_utility()\\n" % W
put("one.py", code)
r = run("one.py", "-u", "a", "a.g.py")
check(r.returncode != 0, "success reported, nothing written: " + r.stdout)
''')

bug(id="c09-daemon-threads", prop="C09",
    edits=[(S, '''        task = asyncio.to_thread(self.doit_impl)
        result = await task
''', '''        loop = asyncio.get_running_loop()
        task = loop.create_future()

        def finish(res):
            if not task.done():
                task.set_result(res)

        def work():
            res = self.doit_impl()
            with contextlib.suppress(RuntimeError):
                loop.call_soon_threadsafe(finish, res)

        # One does not wait for such thread when process is interrupted
        threading.Thread(target=work, daemon=True).start()
        result = await task
'''), (S, "import asyncio\nfrom licant.util", "import asyncio\nimport threading\nfrom licant.util")],
    needs="Ctrl-C while a command runs that has begun to write its output and then fails",
    breaks="licant is gone before the running commands have ended: nobody removes what a failing one leaves behind, and the next build takes it for up to date.",
    demo='''
put("src.txt", "S")
put("step.sh", "trap '' INT\\necho part > out.txt\\ntouch started\\nsleep 3\\n[ -e fine ] || exit 1\\ncat src.txt > out.txt\\n")
put("make.py", """
import licant
licant.makefile(tgt="out.txt", deps=["src.txt"], do="sh step.sh", message="OUT")
licant.ex("out.txt")
""")
p = subprocess.Popen([sys.executable, "make.py", "-j2"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
t = time.time()
while not os.path.exists("started") and time.time() - t < 30:
    time.sleep(0.05)
time.sleep(0.5)
p.send_signal(signal.SIGINT)
p.communicate()
time.sleep(4)
put("fine", "")
r = run("make.py", "-j2")
check(r.returncode == 0, "the second build fails: " + r.stdout)
check(get("out.txt") == "S", "what the failed command left behind was taken for up to date: %r" % get("out.txt"))
''')

bug(id="c06-roots-only", prop="C06",
    edits=[(C, '''        success = InverseRecursiveSolver(dtargets, count_of_threads=threads,
''', '''        # There is no use in more workers than steps to begin with.
        threads = min(threads, max(1, sum(1 for d in dtargets if not d.deps)))
        success = InverseRecursiveSolver(dtargets, count_of_threads=threads,
''')],
    needs="a graph that becomes wider towards the root: one source from which many steps follow",
    breaks="The number of jobs is limited by the number of targets without dependencies: with one source everything runs one after another.",
    demo='''
put("src.txt", "S")
put("make.py", """
import licant
for i in range(4):
    licant.makefile(tgt="o%d" % i, deps=["src.txt"], do="touch run%d; sleep 1; ls run* > {tgt}; rm run%d" % (i, i), message="O")
licant.fileset("all", ["o%d" % i for i in range(4)])
licant.ex("all")
""")
r = run("make.py", "-j4")
check(r.returncode == 0, "build failed: " + r.stdout)
check(max(len(get("o%d" % i).split()) for i in range(4)) > 1, "steps ran one after another with four jobs")
''')

bug(id="c03-all-paths", prop="C03",
    edits=[(S, '''            if dep not in visited:
                self.dfs(dep, visited, path)
''', '''            self.dfs(dep, visited, path)
''')],
    needs="a graph of some depth in which targets are reached on many paths",
    breaks="The check of the graph follows every path: the number of paths, and with it the time, doubles with every layer.",
    demo='''
put("src.txt", "S")
put("make.py", """
import licant
licant.makefile(tgt="l0a", deps=["src.txt"], do="cp src.txt {tgt}", message="")
licant.makefile(tgt="l0b", deps=["src.txt"], do="cp src.txt {tgt}", message="")
for i in range(1, 41):
    for c in "ab":
        licant.makefile(tgt="l%d%s" % (i, c), deps=["l%da" % (i - 1), "l%db" % (i - 1)], do="touch {tgt}", message="")
licant.ex("l40a")
""")
try:
    r = run("make.py", "-j4", timeout=40)
except subprocess.TimeoutExpired:
    check(False, "a build of 80 small steps does not end")
check(r.returncode == 0, "build failed: " + r.stdout)
''')

bug(id="c16-single-library", prop="C16",
    edits=[(I, "                weakdeps=rawtgts + ltgt\n", "                weakdeps=rawtgts + (ltgt if isinstance(libtgt, list) else [])\n")],
    needs="install_library with one library (no list) and an uninstall target",
    breaks="The library is installed together with its headers, but not removed with them.",
    demo='''
put("inc/a.h", "h")
put("libx.so", "so")
put("make.py", """
import licant, licant.install, os
licant.install.install_library(tgt="install", uninstall="uninstall", hroot="x", headers="inc", libtgt="libx.so")
licant.source("libx.so")
licant.ex("install")
""")
e = {"PREFIX": W + "/pre"}
os.makedirs("pre/lib"); os.makedirs("pre/include")
r = run("make.py", "install", env=e)
check(r.returncode == 0, "install failed: " + r.stdout)
check(os.path.exists("pre/lib/libx.so"), "the library was not installed")
r = run("make.py", "uninstall", env=e)
check(r.returncode == 0, "uninstall failed: " + r.stdout)
check(not os.path.exists("pre/lib/libx.so"), "the library was not removed")
''')

bug(id="c17-zero-status", prop="C17",
    edits=[(K, '''    except KeyboardInterrupt:
        licant.util.error("interrupted by user")
''', '''    except KeyboardInterrupt:
        print("interrupted by user")
        result = None
''')],
    needs="Ctrl-C at any moment of a command line build",
    breaks="An interrupted run exits with status zero.",
    demo='''
put("make.py", """
import licant
licant.makefile(tgt="out.txt", deps=[], do="touch started; sleep 3; touch {tgt}", message="OUT")
licant.ex("out.txt")
""")
p = subprocess.Popen([sys.executable, "make.py", "-j2"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
t = time.time()
while not os.path.exists("started") and time.time() - t < 30:
    time.sleep(0.05)
time.sleep(0.5)
p.send_signal(signal.SIGINT)
out = p.communicate()[0]
check(p.returncode != 0, "interrupted build exits with 0: %r" % out)
''')

bug(id="c13-directory-race", prop="C13",
    edits=[(M, """        if not target.exists():
            os.makedirs(target.tgt, exist_ok=True)
            target.update_info()
""", """        if not os.path.exists(target.tgt):
            os.makedirs(target.tgt)
        target.update_info()
""")],
    needs="somebody else creates the directory between the look and the creation",
    breaks="The step that makes a directory fails when the directory appears at that moment, and with it the build.",
    demo='''
put("src.txt", "S")
put("make.py", """
import licant, os
real = os.makedirs
def makedirs(p, *a, **k):
    if "new" in p and not os.path.exists(p):
        real(p)          # another program is a little faster
    return real(p, *a, **k)
os.makedirs = makedirs
licant.makefile(tgt="new/dir/a.txt", deps=["src.txt"], do="cp src.txt {tgt}", message="A")
licant.ex("new/dir/a.txt")
""")
r = run("make.py", "-j2")
check(r.returncode == 0, "build failed: " + r.stdout)
check(get("new/dir/a.txt") == "S", "wrong content")
''')
