BUGS = []
def bug(**k): BUGS.append(k)
X, V, K, L, Lb, S = "licant/cxx_modules.py", "licant/cxx_make.py", "licant/cli.py", "licant/licant_libs.py", "licant/libs.py", "licant/solver.py"

bug(id="c12-lost-headers", prop="C12",
    edits=[(X, "        force = headers is None\n", "        force = headers is None and not os.path.exists(o)\n")],
    needs="a build killed while a dependency file was written (it is left empty), one more build, then a change of a header",
    breaks="An object whose dependency file could not be read is not made again: its headers stay unknown.",
    demo="""
put("src/a.cpp", '#include "h.h"\\nint f() { return H; }\\n')
put("src/h.h", '#define H 1\\n')
put("make.py", '''
import licant
licant.cxx_objects("app", sources=["src/a.cpp"])
licant.ex("app")
''')
r = run("make.py")
check(r.returncode == 0, "no build: " + r.stdout)
import glob
d = [p for p in glob.glob("build/**/*.d", recursive=True)][0]
o = d[:-2] + ".o"
time.sleep(1.1)
put("src/a.cpp", '#include "h.h"\\nint f() { return H ; }\\n')
time.sleep(1.1)
put(d, "")                    # what a killed compiler leaves
put("src/h.h", '#define H 777\\n')
os.utime("src/h.h", (time.time() - 3600,) * 2)
old = open(o, "rb").read()
os.utime(o, None)
r = run("make.py")
check(r.returncode == 0, "no build: " + r.stdout)
check(open(o, "rb").read() != old, "an object whose headers are unknown is taken for current: " + r.stdout)
""")

bug(id="c12-same-basename", prop="C12",
    edits=[(X, "deps=[s] + adddeps + headers, force=force", "deps=[s] + adddeps + list({os.path.basename(h): h for h in headers}.values()), force=force"),
           (X, "deps=[s, d] + adddeps + headers\n", "deps=[s, d] + adddeps\n")],
    needs="a source that includes two headers of the same name in different directories, and a change of one of them",
    breaks="Of the headers with one base name only the last is a dependency: a change of another does not rebuild the object.",
    demo="""
put("src/a.cpp", '#include "p1/common.h"\\n#include "p2/common.h"\\nint f() { return A + B; }\\n')
put("src/p1/common.h", '#define A 1\\n')
put("src/p2/common.h", '#define B 1\\n')
put("make.py", '''
import licant
licant.cxx_objects("app", sources=["src/a.cpp"])
licant.ex("app")
''')
import glob
def build():
    r = run("make.py")
    check(r.returncode == 0, "no build: " + r.stdout)
    return open([p for p in glob.glob("build/**/*.o", recursive=True)][0], "rb").read()
build()
for p in ("src/p1/common.h", "src/p2/common.h"):
    time.sleep(1.1)
    a = build()
    time.sleep(1.1)
    put(p, get(p).replace("1", "4711"))
    check(build() != a, "change of %s did not rebuild the object" % p)
""")

bug(id="c12-local-header-last", prop="C12",
    edits=[(X, "                local_headers_targets.append(tgtpath)\n", "                local_headers_targets = [tgtpath]\n")],
    needs="a module with two or more local headers",
    breaks="Only the last local header is among the dependencies of the objects: the others are not copied, or too late.",
    demo="""
put("inc/one.h", '#define ONE 1\\n')
put("inc/two.h", '#define TWO 2\\n')
put("src/a.cpp", '#include "one.h"\\n#include "two.h"\\nint f() { return ONE + TWO; }\\n')
put("make.py", '''
import licant
licant.cxx_objects("app", sources=["src/a.cpp"], local_headers=[("one.h", "inc/one.h"), ("two.h", "inc/two.h")])
licant.ex("app")
''')
r = run("make.py", "-j4")
check(r.returncode == 0, "the object could not be made of its local headers: " + r.stdout[-400:])
""")

bug(id="c12-hand-made-deps", prop="C12",
    edits=[(V, '''    if deps is None:
        deps = [src]

    if type is None:
        ext = os.path.basename(src).split(".")[-1]

        if ext in cxx_ext_list:
            type = "cxx"
        elif ext in cc_ext_list:
            type = "cc"
        elif ext in asm_ext_list:
            type = "asm"
        else:
            print("Unrecognized extention: {}".format(licant.util.red(ext)))
            exit(-1)
    if type == "cxx":
        build = licant.make.Executor(opts.cxxobjrule)''', '''    deps = [src] + [d for d in deps or [] if os.path.splitext(d)[0] != os.path.splitext(src)[0]]

    if type is None:
        ext = os.path.basename(src).split(".")[-1]

        if ext in cxx_ext_list:
            type = "cxx"
        elif ext in cc_ext_list:
            type = "cc"
        elif ext in asm_ext_list:
            type = "asm"
        else:
            print("Unrecognized extention: {}".format(licant.util.red(ext)))
            exit(-1)
    if type == "cxx":
        build = licant.make.Executor(opts.cxxobjrule)''')],
    needs="an object described by hand with a header beside the source and of its name as a dependency, and a change of that header",
    breaks="Dependencies given to cxx_make.object that share the stem of the source are dropped.",
    demo="""
put("src/a.cpp", '#include "a.h"\\nint f() { return H; }\\n')
put("src/a.h", '#define H 1\\n')
put("make.py", '''
import licant, licant.cxx_make
licant.source("src/a.cpp")
licant.source("src/a.h")
licant.cxx_make.object(src="src/a.cpp", tgt="a.o", deps=["src/a.cpp", "src/a.h"])
licant.ex("a.o")
''')
r = run("make.py")
check(r.returncode == 0, "no build: " + r.stdout)
old = open("a.o", "rb").read()
time.sleep(1.1)
put("src/a.h", '#define H 4711\\n')
r = run("make.py")
check(r.returncode == 0 and open("a.o", "rb").read() != old, "change of the header did not rebuild the object: " + r.stdout)
""")

bug(id="c32-toolchain-not-inherited", prop="C32",
    edits=[(X, '"toolchain": solver("toolchain", local_if_exist, base,', '"toolchain": solver("toolchain", local_if_exist, local_if_exist,')],
    needs="a module that names a tool chain and is included by an assembly that has another",
    breaks="The tool chain a module names replaces the one of the assembly that includes it.",
    demo="""
put("src/a.cpp", 'int f() { return 1; }\\n')
put("src/m.cpp", 'int g() { return 1; }\\n')
put("bin/one", '#!/bin/sh\\necho one >> %s/log; exec c++ "$@"\\n' % W)
put("bin/two", '#!/bin/sh\\necho two >> %s/log; exec c++ "$@"\\n' % W)
os.chmod("bin/one", 0o755); os.chmod("bin/two", 0o755)
put("make.py", '''
import licant, licant.cxx_make, os
def tc(x):
    t = licant.cxx_make.gcc_toolchain()
    t.cxx = os.path.abspath("bin/" + x)
    return t
licant.module("m", sources=["src/m.cpp"], toolchain=tc("two"))
licant.cxx_objects("app", sources=["src/a.cpp"], toolchain=tc("one"), include_modules=["m"])
licant.ex("app")
''')
r = run("make.py")
check(r.returncode == 0, "no build: " + r.stdout[-400:])
seen = set(get("log").split())
check(seen == {"one"}, "tool chains in use: %s" % seen)
""")

bug(id="c32-substring-flags", prop="C32",
    edits=[(X, "    if local is None:\n        return base\n    return base + \" \" + local", "    if local is None or local in base:\n        return base\n    return base + \" \" + local")],
    needs="flags of a submodule that are a part of the text of the flags of the assembly, e.g. -O and -O2, or -g after -ggdb",
    breaks="Flags of a submodule are dropped when they appear inside of the text of what is inherited.",
    demo="""
put("src/a.cpp", 'int f() { return 1; }\\n')
put("src/m.cpp", '''
#ifndef LOCAL
#error the flags of the module are lost
#endif
int g() { return 1; }
''')
put("make.py", '''
import licant
licant.module("m", sources=["src/m.cpp"], cxx_flags="-DLOCAL")
licant.cxx_objects("app", sources=["src/a.cpp"], cxx_flags="-DLOCAL_LIMIT=5", mdepends=["m"])
licant.ex("app")
''')
r = run("make.py")
check(r.returncode == 0, "flags of a module are lost: " + r.stdout[-400:])
""")

bug(id="c33-padded-name", prop="C33",
    edits=[(K, "    if core.has(fnd):\n", "    if core.has(fnd) or core.has(fnd.strip()):\n        fnd = fnd if core.has(fnd) else fnd.strip()\n")],
    needs="a word on the command line that is the name of a target but for white space around it",
    breaks="A word that names no target is not refused but taken for a similar one.",
    demo="""
put("make.py", '''
import licant
licant.makefile(tgt="a.txt", deps=[], do="echo a > {tgt}")
licant.makefile(tgt="b.txt", deps=[], do="echo b > {tgt}")
licant.ex("a.txt")
''')
r = run("make.py", "b.txt ")
check(r.returncode != 0 and not os.path.exists("b.txt"), "an unknown word was executed: " + r.stdout)
""")

bug(id="c33-routine-actions", prop="C33",
    edits=[(K, "        if len(args) == 1 or isinstance(target, licant.core.Routine):", "        if len(args) == 1 or isinstance(target, licant.core.Routine) and not target.hasaction(args[1]):")],
    needs="a routine called with a first argument that is the name of one of its actions",
    breaks="An argument of a routine that is also the name of an action is dropped.",
    demo="""
put("make.py", '''
import licant, licant.core
@licant.routine
def job(*args):
    print("ARGS", list(args))
licant.ex("job")
''')
import ast
for words in (["x", "y"], ["actions", "y"], ["actlist"], ["recurse_invoke", "z"], ["func", "a"], ["doit", "now"], ["print", "a"], ["dlist"]):
    r = run("make.py", "job", *words)
    check("ARGS %r" % words in r.stdout, "job %s: %s" % (words, r.stdout))
""")

bug(id="c19-names-with-dots", prop="C19",
    edits=[(L, "            name = fname.split('.')[0]\n", "            name = fname.rsplit('.', 2)[0]\n")],
    needs="a directory of libraries with a dot in the name of one of them",
    breaks="A library file with dots in its name is registered by another name.",
    demo="""
put("reg/lib.x.g.py", "print('LOADED')\\n")
put("make.py", '''
import licant, licant.libs
licant.libs.include("lib")
''')
e = {"HOME": W}
r = subprocess.run([sys.executable, "-m", "licant.licant_libs", "-u", "reg"], text=True, capture_output=True)
check(r.returncode == 0, "not registered: " + r.stdout + r.stderr)
r = run("make.py")
check(r.returncode == 0 and "LOADED" in r.stdout, "the library is registered by another name: " + get(os.path.join(W, ".licant")))
""")

bug(id="c19-remove-basename", prop="C19",
    edits=[(L, "            del paths[name]\n", "            del paths[os.path.basename(name)]\n")],
    needs="a request to remove a library whose name has a slash in it",
    breaks="Removing x/a removes library a.",
    demo="""
import json
put(".licant", json.dumps({"a": "/tmp/a.g.py", "x/a": "/tmp/xa.g.py"}))
r = subprocess.run([sys.executable, "-m", "licant.licant_libs", "-u", "-r", "x/a"], text=True, capture_output=True)
left = json.loads(get(".licant"))
check(left == {"a": "/tmp/a.g.py"}, "x/a was to be removed, left: %s" % left)
""")

bug(id="c15-merge-existing", prop="C15",
    edits=[(Lb, "    z = x.copy()  # start with x's keys and values\n    z.update(y)  # modifies z with y's keys and values & returns None\n", "    z = x.copy()  # start with x's keys and values\n    z.update((k, v) for k, v in y.items() if k not in z or os.path.exists(v))\n")],
    needs="a library in both registries, whose file of the user is missing",
    breaks="The entry of the user does not win when its file is missing: a build script silently loads another library.",
    demo="""
import json
put("g.json", json.dumps({"a": W + "/g.g.py"}))
put(".licant", json.dumps({"a": W + "/gone.g.py"}))
put("g.g.py", "print('LOADED SYSTEM')\\n")
put("make.py", '''
import licant, licant.libs
licant.libs.gpath = "g.json"
licant.libs.include("a")
''')
r = run("make.py")
check("LOADED SYSTEM" not in r.stdout and r.returncode != 0, "the library of the system is loaded instead of the one of the user: " + r.stdout)
""")

bug(id="c15-include-pops", prop="C15",
    edits=[(Lb, "    included[lib] = libs[lib]\n    print_about_lib(lib, libs[lib])\n    scriptq.execute(libs[lib])", "    included[lib] = libs.pop(lib)\n    print_about_lib(lib, included[lib])\n    scriptq.execute(included[lib])")],
    needs="a script that includes a library and lists the registered libraries afterwards",
    breaks="A library that was included is no longer among the registered libraries.",
    demo="""
import json
put(".licant", json.dumps({"a": W + "/a.g.py", "b": W + "/b.g.py"}))
put("a.g.py", "")
put("make.py", '''
import licant, licant.libs, licant.cli
licant.libs.include("a")
licant.cli.cliexecute(default="l", argv=["l", "list"])
''')
r = run("make.py")
check("a: %s/a.g.py" % W in r.stdout and "b: %s/b.g.py" % W in r.stdout, "listed: " + r.stdout)
""")

bug(id="c32-empty-wrong-type", prop="C32",
    edits=[(X, "                if v.__class__.__name__ != self.table[k].type:", "                if v and v.__class__.__name__ != self.table[k].type:")],
    needs="an option of a wrong type whose value is empty",
    breaks="An option of a wrong type is accepted when its value is empty.",
    demo="""
put("src/a.cpp", 'int f() { return 1; }\\n')
put("make.py", '''
import licant
licant.cxx_objects("app", sources=["src/a.cpp"], include_paths="")
licant.ex("app")
''')
r = run("make.py")
import glob
check(r.returncode != 0 and not glob.glob("build/**/*.o", recursive=True), "accepted: " + r.stdout)
""")
