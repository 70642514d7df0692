BUGS = []
def bug(**k): BUGS.append(k)
X, O, K, C, V = "licant/cxx_modules.py", "licant/modules.py", "licant/cli.py", "licant/core.py", "licant/cxx_make.py"

TOOLS = '''
def tool(names):
    """Compilers that note how they were called and make what they were asked for."""
    for n in names:
        put("bin/" + n, "#!/bin/sh\\necho \\"%s $*\\" >> $LOG\\nwhile [ $# -gt 0 ]; do case $1 in -o) shift; : > $1;; rcs) shift; : > $1;; esac; shift; done\\n" % n)
        os.chmod("bin/" + n, 0o755)

tool(["c++", "cc", "ar", "g++", "gcc"])
ENV = {"PATH": W + "/bin:" + os.environ["PATH"], "LOG": W + "/log"}

def lines(*words):
    t = get("log") if os.path.exists("log") else ""
    return [l for l in t.split("\\n") if all(w in l for w in words)]

'''

bug(id="c31-default-kept", prop="C31",
    edits=[(O, '''        self.defimpls[modname] = impl


    def is_variant'''.replace("\n\n\n", "\n\n"), '''        self.defimpls.setdefault(modname, impl)

    def is_variant''')],
    needs="a module whose default implementation is chosen a second time by a later script",
    breaks="The first default wins: a project that overrides the default of a library still gets the old implementation.",
    demo='''
put("a.cpp", ""); put("b.cpp", "")
put("make.py", """
import licant
from licant.modules import mlibrary
licant.implementation('m', 'a', default=True, defines=['A'])
licant.implementation('m', 'b', defines=['B'])
licant.module_defimpl('m', 'b')
print('GOT', mlibrary.get('m').impl)
""")
r = run("make.py")
check("GOT b" in r.stdout, "default is not the one chosen last: " + r.stdout[-200:])
''')

bug(id="c31-quiet-conflict", prop="C31",
    edits=[(X, '''                if md[0] in mdepends and mdepends[md[0]] is not nmod:''', '''                if md[0] in mdepends and mdepends[md[0]].name != nmod.name:''')],
    needs="two modules of one assembly that request different implementations of a third one",
    breaks="The second request replaces the first without a word: the module that asked first is built against an implementation it did not ask for.",
    demo='''
put("a.cpp", "")
put("make.py", """
import licant
licant.implementation('m', 'a', default=True)
licant.implementation('m', 'b')
licant.module('x', mdepends=[('m', 'a')])
licant.module('y', mdepends=[('m', 'b')])
licant.module('z', mdepends=['x', 'y'])
licant.ex(argv=['cxxm', 'collect_modules', 'z'])
""")
r = run("make.py")
check(r.returncode != 0, "two implementations of one module were accepted: " + r.stdout[-200:])
''')

bug(id="c31-default-over-explicit", prop="C31",
    edits=[(X, '''        name = mdepends_default.get()
        if name in mdepends:
            continue

''', '''        name = mdepends_default.get()
        if name in mdepends and mdepends[name] is mlibrary.get_default(name):
            continue

''')],
    needs="a plain request for a module before another module requests an implementation of it that is not the default",
    breaks="The plain request brings the default implementation in place of the one requested explicitly.",
    demo='''
put("make.py", """
import licant
licant.implementation('m', 'a', default=True)
licant.implementation('m', 'b')
licant.module('z', mdepends=['m', ('m', 'b')])
licant.ex(argv=['cxxm', 'collect_modules', 'z'])
""")
r = run("make.py")
check(r.returncode == 0 and "m:b" in r.stdout and "m:a" not in r.stdout, "not the requested implementation: " + r.stdout[-200:])
''')

bug(id="c31-default-leaf", prop="C31",
    edits=[(X, '''        if "mdepends" in defmod.opts:
            collect_modules(defmod)
''', '''        if "mdepends" in defmod.opts and mdepends_default.empty():
            collect_modules(defmod)
''')],
    needs="two plain requests at once, the first of which is for a module that has requests of its own",
    breaks="What a default implementation asks for is only collected when it was the last in the queue: modules are silently missing.",
    demo='''
put("make.py", """
import licant
licant.module('d')
licant.module('a', mdepends=['d'])
licant.module('b')
licant.module('z', mdepends=['a', 'b'])
licant.ex(argv=['cxxm', 'collect_modules', 'z'])
""")
r = run("make.py")
check(r.returncode == 0 and "d:" in r.stdout and "a:" in r.stdout and "b:" in r.stdout, "a module is missing: " + r.stdout[-200:])
''')

bug(id="c32-shared-list", prop="C32",
    edits=[(X, '''    if base is None:
        base = []
    return base + local


def strconcat''', '''    if base is None:
        base = []
    base.extend(local)
    return base


def strconcat''')],
    needs="an assembly with two submodules, the first of which declares defines or libraries",
    breaks="Defines of one submodule are also those of every submodule after it.",
    demo=TOOLS + '''
put("a.cpp", ""); put("b.cpp", ""); put("p.cpp", "")
put("make.py", """
import licant
licant.module('a', sources=['a.cpp'], defines=['ONLY_A'])
licant.module('b', sources=['b.cpp'])
licant.cxx_application('p', sources=['p.cpp'], modules=[licant.submodule('a'), licant.submodule('b')])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode == 0, r.stdout[-200:])
check(len(lines("-c", "a.cpp", "-DONLY_A")) == 1, "own define is missing")
check(not lines("-c", "b.cpp", "-DONLY_A"), "a define of a sibling: " + str(lines("-c", "b.cpp")))
''')

bug(id="c32-included-srcdir", prop="C32",
    edits=[(X, '''        if "srcdir" in tlocal.opts:
            srcdir = tlocal.opts["srcdir"]
        else:
            srcdir = ""

        local = list(''', '''        if "srcdir" in tlocal.opts:
            srcdir = tlocal.opts["srcdir"]
        else:
            srcdir = tbase.opts["srcdir"]

        local = list(''')],
    needs="an assembly with a source directory that includes a module with sources and no source directory of its own",
    breaks="The sources of the included module are looked for in a subdirectory named like the source directory of the assembly.",
    demo=TOOLS + '''
put("src/p.cpp", ""); put("lib/a.cpp", "")
put("lib/a.g.py", "import licant\\nlicant.module('a', sources=['a.cpp'])\\n")
put("make.py", """
import licant
licant.execute('lib/a.g.py')
licant.cxx_application('p', srcdir='src', sources=['p.cpp'], include_modules=['a'])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode == 0 and lines("-c", "lib/a.cpp"), "source of an included module: " + r.stdout[-300:])
''')

bug(id="c32-nested-include", prop="C32",
    edits=[(X, '''                    retopts = include_modules(
                        retopts, imod.opts["include_modules"])
''', '''                    retopts = include_modules(
                        locopts, imod.opts["include_modules"])
''')],
    needs="an included module that includes another one",
    breaks="The fields of the included module are lost when it includes another module.",
    demo=TOOLS + '''
put("p.cpp", "")
put("make.py", """
import licant
licant.module('b', defines=['B'])
licant.module('a', defines=['A'], include_modules=[licant.submodule('b')])
licant.cxx_application('p', sources=['p.cpp'], include_modules=['a'])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode == 0 and lines("-c", "p.cpp", "-DA", "-DB"), "options of the included module: %s %s" % (lines("-c"), r.stdout[-200:]))
''')

bug(id="c32-standard-of-include", prop="C32",
    edits=[(X, '''    "ccstd": solver("str", local_if_exist, local_if_exist, "c11"),''', '''    "ccstd": solver("str", local_if_exist, base, "c11"),''')],
    needs="an assembly with C sources that includes a module which asks for a C standard",
    breaks="The C standard an included module asks for is ignored (the C++ one is not).",
    demo=TOOLS + '''
put("p.c", "")
put("make.py", """
import licant
licant.module('a', ccstd='gnu99')
licant.cxx_application('p', sources=['p.c'], include_modules=['a'])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode == 0 and lines("-c", "p.c", "-std=gnu99"), "standard: %s" % lines("-c"))
''')

bug(id="c32-unknown-option", prop="C32",
    edits=[(X, '''                    print("cxx_module_field_list:", cxx_module_field_list())
                    exit(-1)
''', '''                    print("cxx_module_field_list:", cxx_module_field_list())
                    continue
''')],
    needs="a misspelled option of an assembly",
    breaks="Unknown options are reported but the assembly is built without them.",
    demo=TOOLS + '''
put("p.c", "")
put("make.py", """
import licant
licant.cxx_application('p', sources=['p.c'], define=['A'])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode != 0 and not lines("-c"), "an unknown option was accepted: %s" % lines())
''')

bug(id="c32-static-tools", prop="C32",
    edits=[(X, '''    "toolchain": solver("toolchain", local_if_exist, base, default_toolchain()),''', '''    "toolchain": solver("toolchain", local, base, default_toolchain()),''')],
    needs="an assembly with a tool chain of its own and a submodule without one",
    breaks="Submodules are compiled by the default compiler instead of that of the assembly around them.",
    demo=TOOLS + '''
put("p.c", ""); put("a.c", "")
put("make.py", """
import licant
licant.module('a', sources=['a.c'])
licant.cxx_application('p', sources=['p.c'], toolchain=licant.gcc_toolchain(), modules=[licant.submodule('a')])
licant.ex(default='p')
""")
r = run("make.py", env=ENV)
check(r.returncode == 0 and len(lines("gcc ", "-c", "p.c")) == 1 and len(lines("gcc ", "-c", "a.c")) == 1, "compilers: %s" % lines("-c"))
''')

bug(id="c33-actions-first", prop="C33",
    edits=[(K, '''    # Try look up fnd in targets
    if core.has(fnd):''', '''    # Try look up fnd in targets
    if core.has(fnd) and not (default is not None and len(args) == 1 and core.get(default).hasaction(fnd)):''')],
    needs="a target that has the name of an action of the default target, named alone on the command line",
    breaks="The action of the default target is called instead of the target of that name.",
    demo='''
put("make.py", """
import licant
licant.Core
core = licant.core.default_core()
def one(t): print('SEEN action')
def two(t): print('SEEN target')
core.add(licant.Target('d', deps=[], actions={'install'}, install=one))
core.add(licant.Target('install', deps=[], action=two))
licant.ex(default='d')
""")
r = run("make.py", "install")
check(r.returncode == 0 and "SEEN target" in r.stdout and "SEEN action" not in r.stdout, r.stdout[-200:])
''')

bug(id="c33-any-attribute", prop="C33",
    edits=[(C, '''        return act in self.__actions__
''', '''        return act in self.__actions__ or callable(getattr(self, act, None))
''')],
    needs="the name of a function of a target that is not one of its actions, as second word of the command line",
    breaks="Words that are no action call inner functions of the target.",
    demo='''
put("make.py", """
import licant
core = licant.core.default_core()
def one(t, *a): print('SEEN one')
def two(t, *a): print('SEEN two')
core.add(licant.Target('d', deps=[], actions={'one'}, one=one, two=two))
licant.ex()
""")
r = run("make.py", "d", "two")
check(r.returncode != 0 and "SEEN" not in r.stdout, "called although it is no action: " + r.stdout[-200:])
''')

bug(id="c33-default-fallback", prop="C33",
    edits=[(K, '''        if len(args) == 1 or isinstance(target, licant.core.Routine):''', '''        if len(args) == 1 or isinstance(target, licant.core.Routine) or not args[1].isidentifier():''')],
    needs="a target followed by a word that could not be the name of a function (a mistyped action, a file)",
    breaks="The default action is called with the words as arguments instead of an error.",
    demo='''
put("make.py", """
import licant
core = licant.core.default_core()
def one(t, *a): print('SEEN one', a)
core.add(licant.Target('d', deps=[], actions={'one'}, one=one, default_action='one'))
licant.ex()
""")
r = run("make.py", "d", "two words")
check(r.returncode != 0 and "SEEN" not in r.stdout, "called although it is no action: " + r.stdout[-200:])
''')

bug(id="c33-routine-drops-empty", prop="C33",
    edits=[(K, '''            return execute_with_default_action(target, args[1:])''', '''            return execute_with_default_action(target, [a for a in args[1:] if a])''')],
    needs="an empty word among the arguments of a routine",
    breaks="Empty arguments are dropped: the routine gets the ones after it in their place.",
    demo='''
put("make.py", """
import licant
@licant.routine
def show(*a): print('SEEN', list(a))
licant.ex()
""")
r = run("make.py", "show", "", "x")
check(r.returncode == 0 and "SEEN ['', 'x']" in r.stdout, r.stdout[-200:])
''')
