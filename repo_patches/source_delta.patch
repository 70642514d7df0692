From 7c8aeb95025696b7526b8b315702affcb4e42276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:34 +0000
Subject: [PATCH 01/37] fix: do not remember other spellings of a target name

Core.has() stored the target under the spelling it was asked for. When the
target was declared anew later (a rule for a file that was mentioned as a
source before), the spelling still led to the old target, so builds skipped
or misordered the rule.
---
 licant/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/licant/core.py b/licant/core.py
index 79fd5e6..d419082 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -88,12 +88,7 @@ class Core:
         if tgt in self._targets:
             return True
 
-        if licant.util.canonical_path(tgt) in self._targets:
-            # access optimization by lazy technique
-            self._targets[tgt] = self._targets[licant.util.canonical_path(tgt)]
-            return True
-
-        return False
+        return licant.util.canonical_path(tgt) in self._targets
 
     def depends_as_set_impl(self, tgt, accum):
         target = self.get(str(tgt))
-- 
2.43.0


From 71e66ee62af6d18fa9eecf3e6bd333f9c66c35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 02/37] fix: a step that raises must not hang the build

An exception in a step (or while licant prints) ended the worker task without
queue.task_done(), as did a worker that got a task after another one had
failed: queue.join() waited for ever. A raised step is now a failed step and
every task taken from the queue is accounted for.
---
 licant/solver.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index 90debb6..7e67839 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -1,6 +1,7 @@
 import asyncio
 from licant.util import invert_depends_dictionary, red
 import contextlib
+import traceback
 
 
 class DependableTarget:
@@ -13,8 +14,13 @@ class DependableTarget:
         self._is_done = False
 
     def doit_impl(self):
-        a = self.what_to_do(*self.args, **self.kwargs)
-        return a
+        try:
+            return self.what_to_do(*self.args, **self.kwargs)
+        except (Exception, SystemExit):
+            # Step that has raised is failed step.
+            with contextlib.suppress(Exception):
+                traceback.print_exc()
+            return False
 
     async def doit(self):
         task = asyncio.to_thread(self.doit_impl)
@@ -115,16 +121,19 @@ class TaskInvoker:
             try:
                 task = await self.queue.get()
 
-                if (self.error_while_execution):
-                    break
+                try:
+                    if (self.error_while_execution):
+                        break
 
-                async with self.mtx:
-                    self.thread_on_base[no] = False
-                if self.trace:
-                    print(f"[Trace] thread:{no} do task: {task.name()}")
+                    async with self.mtx:
+                        self.thread_on_base[no] = False
+                    if self.trace:
+                        print(f"[Trace] thread:{no} do task: {task.name()}")
 
-                result = await task.doit()
-                self.queue.task_done()
+                    result = await task.doit()
+                finally:
+                    # Without it queue.join() would never return
+                    self.queue.task_done()
 
                 if (self.error_while_execution):
                     break
@@ -146,6 +155,12 @@ class TaskInvoker:
                 self.error_while_execution = True
                 break
 
+            except Exception:
+                self.error_while_execution = True
+                with contextlib.suppress(Exception):
+                    traceback.print_exc()
+                break
+
         await self.release_queue()
 
     async def release_queue(self):
-- 
2.43.0


From 620c506960922d33569fe75eb9207d1a95e41178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:31 +0000
Subject: [PATCH 03/37] fix: relay any amount and encoding of command output

do_execute waited for the command before reading its pipes, so a command
printing more than the pipe holds blocked for ever, and output that is not
valid UTF-8 raised UnicodeDecodeError after a successful command.
---
 licant/make.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index c312d6d..2f547d0 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -45,13 +45,13 @@ def do_execute(target, rule, msgfield, prefix=None):
 
     proc = subprocess.Popen(
         rule, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-    stdout = proc.stdout
-    stderr = proc.stderr
-    ret = proc.wait()
+    # Pipes must be read while process works, it would block on full pipe otherwise.
+    stdout, stderr = proc.communicate()
+    ret = proc.returncode
 
-    sprint(stdout.read().decode("utf-8"), end="")
+    sprint(stdout.decode("utf-8", errors="replace"), end="")
     sys.stdout.flush()
-    sprint(stderr.read().decode("utf-8"), end="")
+    sprint(stderr.decode("utf-8", errors="replace"), end="")
     sys.stderr.flush()
 
     if target.is_file():
-- 
2.43.0


From 562faab676ec4eddfa86b132bbb72c7134ee2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 04/37] fix: report a failed build to the caller and in the
 exit status

cliexecute dropped the result of the build, so a failed build exited with
status 0; Core.do and routines dropped it as well.
---
 licant/cli.py  |  5 ++++-
 licant/core.py | 11 +++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index 4501b00..af6cc37 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -150,9 +150,12 @@ def cliexecute(
         print("PRINT RUNTIME:", core.runtime)
 
     try:
-        __cliexecute(args, default=default, core=core)
+        result = __cliexecute(args, default=default, core=core)
     except KeyboardInterrupt:
         licant.util.error("interrupted by user")
 
     if colorwrap:
         print(licant.util.yellow("[finish]"))
+
+    if result is False:
+        sys.exit(1)
diff --git a/licant/core.py b/licant/core.py
index d419082..be86753 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -124,14 +124,13 @@ class Core:
             target = self.get(target)
 
         if isinstance(target, (list, tuple)):
-            for t in target:
-                self.do(t, action, args, kwargs)
-            return
+            results = [self.do(t, action, args, kwargs) for t in target]
+            return all(r is not False for r in results)
 
         if action is None:
             action = target.default_action
 
-        target.invoke(action, args=args, kwargs=kwargs)
+        return target.invoke(action, args=args, kwargs=kwargs)
 
     def routine_do(self, func=None, deps=[], update_if=lambda s: True, tgt=None):
         self.add(Routine(func=func, deps=deps, update_if=update_if, tgt=tgt))
@@ -415,7 +414,7 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        self.recurse_update(threads=threads)
+        return self.recurse_update(threads=threads)
 
 
 def routine(func=None, **kwargs):
@@ -423,7 +422,7 @@ def routine(func=None, **kwargs):
 
 
 def do(target, action=None, args=[], kwargs={}):
-    default_core().do(target=target, action=action, args=args, kwargs=kwargs)
+    return default_core().do(target=target, action=action, args=args, kwargs=kwargs)
 
 
 def get_target(name):
-- 
2.43.0


From 3fa2d096c41d2a84db397e8260ee4d6148ac1e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 05/37] fix: do not fail when an output directory appears
 meanwhile

DirectoryKeeper relied on cached knowledge that the directory does not exist;
one made by a command or another process raised FileExistsError.
---
 licant/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 2f547d0..0b44c38 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -76,7 +76,7 @@ class DirectoryKeeper():
     def __call__(self, target, **kwargs):
         print("MAKEDIRS", target.tgt)
         if not target.exists():
-            os.makedirs(target.tgt)
+            os.makedirs(target.tgt, exist_ok=True)
             target.update_info()
 
 
-- 
2.43.0


From aa71db8fd09c6c4fffd3f5ca9187df8582c521c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 06/37] fix: file targets may depend on routines and updatable
 targets

internal_update_if and the mtime of a file set asked every dependency for its
modification time, which only file targets have (AttributeError).
---
 licant/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 0b44c38..5580ec0 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -107,6 +107,8 @@ class MakeFileTarget(UpdatableTarget):
         maxtime = 0
         for d in self.deps:
             dtgt = self.core.get(d)
+            if not dtgt.is_file():
+                continue
             mtime = dtgt.mtime()
             if mtime is not None and mtime > maxtime:
                 maxtime = mtime
@@ -167,8 +169,10 @@ class FileTarget(MakeFileTarget):
 
         maxtime = 0
         for dep in self.get_deplist():
+            if not dep.is_file():
+                continue
             depmtime = dep.mtime()
-            if dep.is_file() and depmtime > maxtime:
+            if depmtime > maxtime:
                 maxtime = depmtime
 
         if maxtime > self.mtime():
-- 
2.43.0


From 70e2d8834084dd8ea91c3985a3e79dd935018370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:45 +0000
Subject: [PATCH 07/37] fix: updatable targets can be done without a command
 line

recurse_update_get_args passes the thread count of the runtime, which is None
until cliexecute has set it (TypeError in the solver).
---
 licant/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/licant/core.py b/licant/core.py
index be86753..3261946 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -358,6 +358,8 @@ class UpdatableTarget(Target):
     def recurse_update(self, threads=1):
         if "threads" in self.core.runtime:
             threads = self.core.runtime["threads"]
+        if threads is None:
+            threads = 1
 
         depset = self.core.depends_as_set(self, incroot=True)
 
-- 
2.43.0


From 25e0fd0a0a31d00b78d46c6d9d6c588218bce663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 08/37] fix: remove what a failed step has written

A command or function that fails halfway leaves a file newer than all its
dependencies, which the next build took for up to date.
---
 licant/make.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 5580ec0..70a5db9 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -180,11 +180,30 @@ class FileTarget(MakeFileTarget):
 
         return False
 
+    def file_state(self):
+        try:
+            st = os.lstat(self.tgt)
+            return (st.st_mtime_ns, st.st_size, st.st_ino)
+        except OSError:
+            return None
+
     def update(self):
-        sts = self.build(self)
-        self.update_info()
+        before = self.file_state()
+        sts = False
+        try:
+            sts = self.build(self)
+        finally:
+            if sts is False:
+                self.remove_incomplete(before)
+            self.update_info()
         return sts
 
+    def remove_incomplete(self, before):
+        """What failed build has written must not be taken for up to date file later."""
+        state = self.file_state()
+        if state is not None and state != before and not os.path.isdir(self.tgt):
+            os.remove(self.tgt)
+
     def __lt__(self, other):
         return str(self) < str(other)
 
-- 
2.43.0


From 778066344f901f53e5e1a808428b71fcdd80456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:19 +0000
Subject: [PATCH 09/37] fix: do not swallow an interrupt inside a worker

---
 licant/solver.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/licant/solver.py b/licant/solver.py
index 7e67839..d194d63 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -151,10 +151,6 @@ class TaskInvoker:
                     if all(self.thread_on_base) and self.queue.empty():
                         break
 
-            except KeyboardInterrupt:
-                self.error_while_execution = True
-                break
-
             except Exception:
                 self.error_while_execution = True
                 with contextlib.suppress(Exception):
-- 
2.43.0


From ae4d5b55f0ab83e6675b8a9284e4b15bb2a7b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:35 +0000
Subject: [PATCH 10/37] fix: forget resolved dependencies between actions

---
 licant/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 3261946..474024f 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -207,7 +207,8 @@ class Target:
         pass
 
     def nullify_update_needity(self):
-        pass
+        # Targets could be redeclared after the previous action.
+        self.cached_deplist = None
 
     def trace_mode(self):
         return self.core.trace_mode()
@@ -319,6 +320,7 @@ class UpdatableTarget(Target):
             print("[Trace] update_needity: {} {}".format(self.tgt, self.need_update))
 
     def nullify_update_needity(self):
+        Target.nullify_update_needity(self)
         self.need_update = None
 
     def recurse_update_get_args(self):
-- 
2.43.0


From 2ed876164a675c4973dd83a74c8580222ee0c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:39 +0000
Subject: [PATCH 11/37] fix: licant-libs --remove removes the named library

---
 licant/licant_libs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 4f46556..5d31b91 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -75,6 +75,7 @@ def licant_libs_utility():
             add_record(name, path)
 
     if opts.remove:
+        name = args[0]
         try:
             del paths[name]
         except:
-- 
2.43.0


From 0c0148c59b13398b05c7c6e9df5b80ef01312710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:39 +0000
Subject: [PATCH 12/37] fix: replace the library registry in one step

---
 licant/licant_libs.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 5d31b91..6a4f4bc 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -23,6 +23,17 @@ def add_record(name, path):
     paths[name] = abspath
 
 
+def save_records(paths_file):
+    """Replace the registry in one step, so that it never holds a part of the records."""
+    paths_file = os.path.realpath(paths_file)
+    tmp_file = paths_file + ".tmp"
+    with open(tmp_file, "w") as f:
+        json.dump(paths, f)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(tmp_file, paths_file)
+
+
 def licant_libs_utility():
     global paths
     usage = "usage: %prog [options] lib path"
@@ -34,15 +45,15 @@ def licant_libs_utility():
 
     paths_file = licant.libs.lpath if opts.user else licant.libs.gpath
 
-    if (os.path.exists(paths_file)):
-        try:
-            paths = json.load(open(paths_file))
-        except:
-            print("Load error:")
-            print("Wrong format", paths_file)
-            exit(-1)
-    else:
+    try:
+        with open(paths_file) as f:
+            paths = json.load(f)
+    except FileNotFoundError:
         paths = {}
+    except Exception:
+        print("Load error:")
+        print("Wrong format", paths_file)
+        exit(-1)
 
     if opts.list:
         print("Libraries:")
@@ -83,7 +94,7 @@ def licant_libs_utility():
 
     try:
         print(f"update: {paths_file}, text: {json.dumps(paths, indent=4)}")
-        json.dump(paths, open(paths_file, "w"))
+        save_records(paths_file)
     except IOError as e:
         print("Dump error:")
         print(e)
-- 
2.43.0


From a65e30f1466db7f7d12d33bcc3ce1efd04213f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:18 +0000
Subject: [PATCH 13/37] fix: uninstall removes the installed files

---
 licant/make.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 70a5db9..a0fa18a 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -90,7 +90,8 @@ class MakeFileTarget(UpdatableTarget):
 
     def clean(self):
         stree = self.core.depends_as_set(self.tgt, incroot=True)
-        stree = [self.core.get(s) for s in stree]
+        stree = set(stree) | self.weakdeps
+        stree = [self.core.get(s) for s in sorted(stree)]
 
         for target in stree:
             if if_file_and_exist(target) and target.clr:
-- 
2.43.0


From e04aa0d2ade77c96fb3e8e54036a56391fafb3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:18 +0000
Subject: [PATCH 14/37] fix: an application installed without target name does
 not depend on itself

---
 licant/install.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/install.py b/licant/install.py
index 4a1ca26..1d8199f 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -81,9 +81,9 @@ def install_application(src, dst, tgt=None):
         return None
 
     apptgt = os.path.join(path, dst)
-    if tgt is None:
-        tgt = apptgt
     licant.make.copy(tgt=apptgt, src=src)
+    if tgt is None:
+        return apptgt
     return licant.fileset(tgt=tgt, targets=[apptgt])
 
 
-- 
2.43.0


From 6ec9a7bd3f826acbb9b3b03f551a3538b6d766c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:18 +0000
Subject: [PATCH 15/37] fix: headers of one directory can be installed to
 several places

---
 licant/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/install.py b/licant/install.py
index 1d8199f..b3ceaeb 100644
--- a/licant/install.py
+++ b/licant/install.py
@@ -102,7 +102,7 @@ def install_headers(tgtdir, srcdir, patterns=("*.h", "*.hxx"), adddeps=[]):
 
     targets = [licant.copy(src=h, tgt=os.path.join(
         headers_path, tgtdir, os.path.relpath(h, srcdir)), adddeps=adddeps) for h in headers]
-    full_target = licant.fileset(tgt="headers://"+srcdir, targets=targets)
+    full_target = licant.fileset(tgt="headers://{}:{}".format(srcdir, tgtdir), targets=targets)
 
     return full_target, targets
 
-- 
2.43.0


From cfa6a10c26e57e3c8a533c05821fece1bda1d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 16/37] fix: a clean that could not remove a file reports it

rm's failure was ignored by clr() and clean(), so clean and uninstall
reported success and exited with 0 while the files stayed in place.
---
 licant/make.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index a0fa18a..54861a3 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -93,9 +93,12 @@ class MakeFileTarget(UpdatableTarget):
         stree = set(stree) | self.weakdeps
         stree = [self.core.get(s) for s in sorted(stree)]
 
+        sts = True
         for target in stree:
             if if_file_and_exist(target) and target.clr:
-                target.clr()
+                if target.clr() is False:
+                    sts = False
+        return sts
 
     def makefile(self):
         return self.recurse_update()
@@ -162,7 +165,7 @@ class FileTarget(MakeFileTarget):
 
     def clr(self):
         """Delete this file."""
-        do_execute(self, "rm -f {tgt}", "clrmsg")
+        return do_execute(self, "rm -f {tgt}", "clrmsg")
 
     def internal_update_if(self):
         if self.force or not self.is_exist():
-- 
2.43.0


From 712349b7cd5f2b64f6ca69907f59fe60e47cf7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 17/37] fix: modules of modules can be linked

modmake() returns the results together with the options, and libraries are
Target objects: a list of submodules ended in a TypeError.
---
 licant/cxx_make.py    | 6 +++---
 licant/cxx_modules.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index f278dd4..34054e9 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -240,7 +240,7 @@ def executable(tgt, srcs, opts=options(), core=default_core(), message="EXECUTAB
             opts=opts,
             tgt=tgt,
             build=licant.make.Executor(opts.execrule),
-            srcs=" ".join(srcs),
+            srcs=" ".join(str(s) for s in srcs),
             deps=srcs,
             message=message,
         )
@@ -253,7 +253,7 @@ def dynamic_library(tgt, srcs, opts=options(), core=default_core(), message="DYN
             opts=opts,
             tgt=tgt,
             build=licant.make.Executor(opts.dynlibrule),
-            srcs=" ".join(srcs),
+            srcs=" ".join(str(s) for s in srcs),
             deps=srcs,
             message=message,
         )
@@ -266,7 +266,7 @@ def static_library(tgt, srcs, opts=options(), core=default_core(), message="STAT
             opts=opts,
             tgt=tgt,
             build=licant.make.Executor(opts.statlibrule),
-            srcs=" ".join(srcs),
+            srcs=" ".join(str(s) for s in srcs),
             deps=srcs,
             message=message,
         )
diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 0509ed3..fb3aa40 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -524,7 +524,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         submodules_results = []
         # print(locopts["modules"])
         for smod in locopts["modules"]:
-            submodules_results += modmake(smod.name, smod.impl, locopts)
+            submodules_results += modmake(smod.name, smod.impl, locopts)[0]
 
         if locopts["type"] == "application":
             return ([executable(locobjs + submodules_results, locopts)], locopts)
-- 
2.43.0


From 10bd148f3fccc2b4b29776e15a82eecd764d4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 18/37] fix: do not create the directory of a missing source

source() registered a directory target for a source (or a header named by
an old .d file) in a directory that is gone, so the next build created it.
---
 licant/make.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/make.py b/licant/make.py
index 54861a3..997d8cb 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -242,7 +242,8 @@ def source(tgt, deps=[]):
         return
 
     target = FileTarget(
-        build=lambda self: self.warn_if_not_exist(), deps=deps, tgt=tgt)
+        build=lambda self: self.warn_if_not_exist(), deps=deps, tgt=tgt,
+        use_dirkeep=False)
     target.clr = None
     target.dirkeep = licant.util.do_nothing
     return default_core().add(target)
-- 
2.43.0


From 52fce272a622dc99f1e894d5b278499ecdc4d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 19/37] fix: read the names of headers from dependency files as
 the compiler writes them

---
 licant/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/util.py b/licant/util.py
index c91727c..cbd32bb 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -237,7 +237,7 @@ def find_recursive(root, pattern, hide, debug):
     return result
 
 
-cxx_read_depends_pattern = re.compile(r"[\w./-]+")
+cxx_read_depends_pattern = re.compile(r"(?:\\[ #]|[^\s\\])+")
 
 
 def cxx_read_depends(path):
@@ -251,7 +251,7 @@ def cxx_read_depends(path):
             return None
 
         lst = cxx_read_depends_pattern.findall(text)
-        return lst[2:]
+        return [re.sub(r"\\([ #])", r"\1", h).replace("$$", "$") for h in lst[2:]]
 
 
 def get_actions(target):
-- 
2.43.0


From 8b097c346c7543058be9706df92cc6a46d933f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 20/37] fix: find dependencies with the options of compilation

---
 licant/cxx_make.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index 34054e9..5ad6286 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -110,8 +110,8 @@ class options:
         self.statlibrule = "{opts.toolchain.ar} rcs {tgt} {srcs}"
         self.cxxobjrule = "{opts.toolchain.cxx} -c {src} -o {tgt} {opts.incopt} {opts.defopt} {opts.cxx_flags} {opts.optimize}"
         self.ccobjrule = "{opts.toolchain.cc} -c {src} -o {tgt} {opts.incopt} {opts.defopt} {opts.cc_flags} {opts.optimize}"
-        self.cxxdeprule = "{opts.toolchain.cxx} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cxx_flags}"
-        self.ccdeprule = "{opts.toolchain.cc} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cc_flags}"
+        self.cxxdeprule = "{opts.toolchain.cxx} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cxx_flags} {opts.optimize}"
+        self.ccdeprule = "{opts.toolchain.cc} -MM {src} > {tgt} {opts.incopt} {opts.defopt} {opts.cc_flags} {opts.optimize}"
         self.mocrule = "{opts.toolchain.moc} {src} > {tgt}"
         self.uicrule = "{opts.toolchain.uic} {src} > {tgt}"
 
-- 
2.43.0


From a597e72ce88e94edc5a570ed9de50b6551a30a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 21/37] fix: examine what is out of date once per target, not
 once per path to it

---
 licant/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/licant/core.py b/licant/core.py
index 474024f..1dcefeb 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -333,13 +333,17 @@ class UpdatableTarget(Target):
         if self.need_update is not None:
             return self.need_update
 
+        # The answer is kept: a target is examined once, not once for every path to it.
         if self.update_if(self):
+            self.need_update = True
             return True
 
         for dep in self.get_deplist():
             if dep.recursive_update_needed_request():
+                self.need_update = True
                 return True
 
+        self.need_update = False
         return False
 
     def invoke_function_or_method(self, act):
-- 
2.43.0


From 72357e131eb31e4b3fe6bed36647db7099336411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 22/37] fix: visit every member of nested file sets once when
 their time is asked

---
 licant/make.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/licant/make.py b/licant/make.py
index 997d8cb..f744827 100644
--- a/licant/make.py
+++ b/licant/make.py
@@ -109,9 +109,16 @@ class MakeFileTarget(UpdatableTarget):
     def mtime(self):
         """fileset mtime"""
         maxtime = 0
-        for d in self.deps:
-            dtgt = self.core.get(d)
-            if not dtgt.is_file():
+        seen = set()
+        deps = list(self.deps)
+        while deps:
+            dtgt = self.core.get(deps.pop())
+            if not dtgt.is_file() or dtgt in seen:
+                continue
+            seen.add(dtgt)
+            if not isinstance(dtgt, FileTarget):
+                # One file set may be reached by many paths.
+                deps.extend(dtgt.deps)
                 continue
             mtime = dtgt.mtime()
             if mtime is not None and mtime > maxtime:
-- 
2.43.0


From 7d7987e9d2346c7aca5fb6fe729869bf70b497df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 23/37] fix: do not pass arguments of a finished call to a
 routine again

---
 licant/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/licant/core.py b/licant/core.py
index 1dcefeb..52a2d4f 100644
--- a/licant/core.py
+++ b/licant/core.py
@@ -422,7 +422,11 @@ class Routine(UpdatableTarget):
 
     def invoke_routine(self, *args, threads=1, **kwargs):
         self.args = list(args)
-        return self.recurse_update(threads=threads)
+        try:
+            return self.recurse_update(threads=threads)
+        finally:
+            # They were given for this call only.
+            self.args = []
 
 
 def routine(func=None, **kwargs):
-- 
2.43.0


From 99200457c84500683a01dc4567280939da435d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 24/37] fix: leave the directory of a nested script also when
 it has failed

---
 licant/scripter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/scripter.py b/licant/scripter.py
index 78369de..695eaca 100644
--- a/licant/scripter.py
+++ b/licant/scripter.py
@@ -18,7 +18,9 @@ class ScriptQueue:
             exec(open(path).read(), globals())
         except Exception as e:
             licant.util.error_exception("Exception in file {}".format(path), e)
-        self.stack.pop()
+        finally:
+            # The caller could handle the exit and go on.
+            self.stack.pop()
 
     def execute(self, path):
         path = os.path.join(self.curdir(), path)
-- 
2.43.0


From e5dc4709423d7fa04427f7673541fab109339a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 25/37] fix: look for a local tunnel where the including script
 is

---
 licant/libs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/licant/libs.py b/licant/libs.py
index 6a7398d..f4dcfda 100644
--- a/licant/libs.py
+++ b/licant/libs.py
@@ -57,15 +57,17 @@ def include(lib, path=None, local_tunel=None):
         # with python packages. Local tunel create link
         # for setup.py can find sources by relative path.
 
-        if not os.path.exists(local_tunel[0]):
+        # The script is looked for there, relative to the including one.
+        tunel = os.path.join(scriptq.curdir(), local_tunel[0])
+
+        if not os.path.exists(tunel):
             # Убеждаемся, что директории до тунеля существуют
-            if not os.path.exists(os.path.dirname(local_tunel[0])):
-                os.makedirs(os.path.dirname(local_tunel[0]))
+            os.makedirs(os.path.dirname(os.path.abspath(tunel)), exist_ok=True)
 
             rawdir = os.path.dirname(libs[lib])
 
-            if not os.path.exists(local_tunel[0]):
-                os.symlink(rawdir, local_tunel[0])
+            if not os.path.exists(tunel):
+                os.symlink(rawdir, tunel)
 
             included[lib] = os.path.join(local_tunel[0], local_tunel[1])
             scriptq.execute(os.path.join(local_tunel[0], local_tunel[1]))
-- 
2.43.0


From 757768e2d062d256b1ca531b16eeb06a3c06bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 26/37] fix: write the registry through a temporary file of
 each process

---
 licant/licant_libs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index 6a4f4bc..b76840f 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -26,7 +26,7 @@ def add_record(name, path):
 def save_records(paths_file):
     """Replace the registry in one step, so that it never holds a part of the records."""
     paths_file = os.path.realpath(paths_file)
-    tmp_file = paths_file + ".tmp"
+    tmp_file = "{}.{}.tmp".format(paths_file, os.getpid())
     with open(tmp_file, "w") as f:
         json.dump(paths, f)
         f.flush()
-- 
2.43.0


From 83504b697a749169262d857f02928c00905117da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 27/37] fix: pass the words after an action as its arguments

---
 licant/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/licant/cli.py b/licant/cli.py
index af6cc37..8b91609 100644
--- a/licant/cli.py
+++ b/licant/cli.py
@@ -112,13 +112,13 @@ def __cliexecute(args, default, core):
                 )
             )
 
-        return target.invoke(act, *args[2:], critical=True)
+        return target.invoke(act, args=args[2:], critical=True)
 
     # Try look up fnd in actions of default_target
     if default is not None:
         dtarget = core.get(default)
         if dtarget.hasaction(fnd):
-            return dtarget.invoke(fnd, *args[1:], critical=True)
+            return dtarget.invoke(fnd, args=args[1:], critical=True)
 
     # Can't look fnd.
     licant.util.error(
-- 
2.43.0


From a25c091993f6b52d3e93ab773e855c7cdaa628ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 28/37] fix: link the object of an absolute source with .. in
 its path from where it is made

---
 licant/cxx_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index fb3aa40..705e344 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -243,7 +243,7 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None):
             split = os.path.split(s)
             s = os.path.join(*split[:-1], prefix + split[-1])
         if os.path.isabs(s):
-            s = builddir + gu.changeext(s, ext)
+            s = builddir + gu.changeext(os.path.normpath(s), ext)
             objs.append(s)
         else:
             objs.append(
-- 
2.43.0


From 9f825c6d721114e22b13f61fb10facc2c45fccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 29/37] fix: do not include the modules of an assembly once
 more in its submodules

---
 licant/cxx_modules.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 705e344..37cb1dd 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -113,13 +113,11 @@ def local_if_exist(base, local, solver, tbase, tlocal):
     return base if local is None else local
 
 
-def concat_to_submodule(base, local, solver, tbase, tlocal):
+def local_to_submodule(base, local, solver, tbase, tlocal):
+    # What the base includes is already among its options.
     if local is None:
         local = []
-    if base is None:
-        base = []
-    lm = [licant.modules.submodule(l) for l in local]
-    return base + lm
+    return [licant.modules.submodule(l) for l in local]
 
 
 def cxx_module_field_list():
@@ -144,7 +142,7 @@ def cxx_module_field_list():
     "builddir": solver("str", local_if_exist, base, "build"),
     "toolchain": solver("toolchain", local_if_exist, base, default_toolchain()),
     "optimize": solver("str", local_if_exist, base, ""),
-    "include_modules": solver("list", concat_to_submodule, base, []),
+    "include_modules": solver("list", local_to_submodule, base, []),
     "defines": solver("list", concat, concat, []),
     "ldscripts": solver("list", concat_add_locdir, concat_add_locdir, []),
     "local_headers": solver(
-- 
2.43.0


From dcb9c0d8ae5f0b4fb65ec4d341c0462d0b9adf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 30/37] fix: accept names and pairs in include_modules of an
 included module

---
 licant/cxx_modules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 37cb1dd..8ce2227 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -443,6 +443,7 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
         def include_modules(locopts, lst):
             retopts = locopts
             for simod in lst:
+                simod = licant.modules.submodule(simod)
                 imod = mlibrary.get(simod.name, simod.impl)
                 retopts = retopts.merge(imod, "include")
 
-- 
2.43.0


From 4d7bec8ad99fc717655bd9a1b153c0f0dea5e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 31/37] fix: collect every explicitly requested module once

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 8ce2227..9b9909f 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -395,9 +395,10 @@ def collect_modules(mod):
                         )
                     )
 
+                known = md[0] in mdepends
                 specify_implementation(name=md[0], mod=nmod, incfrom=mod.name)
 
-                if "mdepends" in nmod.opts:
+                if "mdepends" in nmod.opts and not known:
                     # Сразу же выполняем обход по данному модулю
                     collect_modules(nmod)
 
-- 
2.43.0


From ed8e658f0fd0009db4741cea4cf510f3d3d74968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 32/37] fix: make the local headers of each assembly a module
 is a part of

---
 licant/cxx_modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index 9b9909f..f902299 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -474,7 +474,8 @@ def prepare_targets(name, impl=None, core=licant.core.default_core(), **kwargs):
                 local_headers_targets.append(tgtpath)
 
         licant.make.fileset(name + "__local_headers__", local_headers_targets)
-        adddeps.append(name + "__local_headers__")
+        # The same module could be a part of several assemblies.
+        adddeps.extend(local_headers_targets)
 
         for dep in locopts["depends"]:
             if "*" in dep:
-- 
2.43.0


From 462997ea298a986f620713eaa9d497be153efe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:14 +0000
Subject: [PATCH 33/37] fix: let --gcc_toolchain and --clang_toolchain reach
 the options of modules

The default toolchain was looked up when licant was imported, before the
command line is read, so the two options changed nothing.
---
 licant/cxx_make.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/licant/cxx_make.py b/licant/cxx_make.py
index 5ad6286..b35b1df 100644
--- a/licant/cxx_make.py
+++ b/licant/cxx_make.py
@@ -10,6 +10,8 @@ DEFAULT_TOOLCHAIN = "std"
 def set_default_toolchain(toolchain):
     global DEFAULT_TOOLCHAIN
     DEFAULT_TOOLCHAIN = toolchain
+    # Options that were made before share the default toolchain.
+    DEFAULT_TOOLCHAIN_OBJECT.__dict__.update(make_default_toolchain().__dict__)
 
 class Options:
     pass
@@ -68,7 +70,7 @@ def clang_toolchain():
         moc="moc",
         uic="uic")
 
-def default_toolchain():
+def make_default_toolchain():
     if DEFAULT_TOOLCHAIN == "clang":
         return clang_toolchain()
 
@@ -80,6 +82,14 @@ def default_toolchain():
         
     raise Exception("unknown toolchain")
 
+
+DEFAULT_TOOLCHAIN_OBJECT = make_default_toolchain()
+
+
+def default_toolchain():
+    return DEFAULT_TOOLCHAIN_OBJECT
+
+
 class options:
     def __init__(
             self,
-- 
2.43.0


From 5bf172c427547ca7bb5edc7288a1bc12310a5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 34/37] fix: do not make two sources into the same object

a.c and a.cpp of a directory (or ../a.c and an equally named one elsewhere)
shared one object: one of them was never compiled, the other linked twice.
---
 licant/cxx_modules.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index f902299..a8dcae3 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -230,6 +230,10 @@ def cxx_options_from_modopts(modopts):
     )
 
 
+# File of a build directory: source it is made from.
+built_from = {}
+
+
 def build_paths(srcs, opts, ext, prefix=None, builddir=None):
     if builddir is None:
         builddir = opts.opts["builddir"]
@@ -252,6 +256,20 @@ def build_paths(srcs, opts, ext, prefix=None, builddir=None):
                 )
             )
 
+    # a.c and a.cpp can not both be made into a.o.
+    sources = {}
+    for s, o in zip(srcs, objs):
+        sources.setdefault(o, set()).add(os.path.abspath(s))
+
+    for i, s in enumerate(srcs):
+        src = os.path.abspath(s)
+        dirname, name = os.path.split(objs[i])
+        if len(sources[objs[i]]) > 1:
+            name = os.path.basename(s) + "." + ext
+        while built_from.setdefault(os.path.abspath(os.path.join(dirname, name)), src) != src:
+            name = "_" + name
+        objs[i] = os.path.join(dirname, name)
+
     return objs
 
 
-- 
2.43.0


From bffc9ff4841b49f3575b612757fd07a022ca6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:41 +0000
Subject: [PATCH 35/37] fix: a step that raises something that is no Exception
 is a failed step

asyncio.CancelledError, GeneratorExit and the like went through the worker:
a build with one job never returned, and the failing target was not named.
---
 licant/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/licant/solver.py b/licant/solver.py
index d194d63..2b22204 100644
--- a/licant/solver.py
+++ b/licant/solver.py
@@ -16,7 +16,9 @@ class DependableTarget:
     def doit_impl(self):
         try:
             return self.what_to_do(*self.args, **self.kwargs)
-        except (Exception, SystemExit):
+        except KeyboardInterrupt:
+            raise
+        except BaseException:
             # Step that has raised is failed step.
             with contextlib.suppress(Exception):
                 traceback.print_exc()
-- 
2.43.0


From ad8cd5b8c5b6041656de30e1c6f6c0fd5d1bf5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:41 +0000
Subject: [PATCH 36/37] fix: register the libraries of a directory with pattern
 characters in its name

---
 licant/licant_libs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/licant/licant_libs.py b/licant/licant_libs.py
index b76840f..8e0a589 100644
--- a/licant/licant_libs.py
+++ b/licant/licant_libs.py
@@ -78,7 +78,7 @@ def licant_libs_utility():
 
     if len(args) == 1 and opts.remove == False:
         import glob
-        ret = glob.glob(os.path.join(args[0], "*.g.py"))
+        ret = glob.glob(os.path.join(glob.escape(args[0]), "*.g.py"))
         for f in ret:
             fname = os.path.basename(f)
             name = fname.split('.')[0]
-- 
2.43.0


From 4573f9ace24ffe52ec3b279866ab1f16ee2a48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:05 +0000
Subject: [PATCH 37/37] fix: do not take an object for current that was made of
 another source

The dependency file names the source. a.c renamed to a.cpp, or a source of
another directory whose object had the same name, left the old object in use.
---
 licant/cxx_modules.py |  2 +-
 licant/util.py        | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/licant/cxx_modules.py b/licant/cxx_modules.py
index a8dcae3..30153b6 100644
--- a/licant/cxx_modules.py
+++ b/licant/cxx_modules.py
@@ -309,7 +309,7 @@ def link_objects(srcs, objs, deps, cxxopts, adddeps):
         if not default_core().has(s):
             licant.make.source(s)
 
-        headers = cxx_read_depends(d)
+        headers = cxx_read_depends(d, s)
         force = headers is None
         if headers is None:
             headers = []
diff --git a/licant/util.py b/licant/util.py
index cbd32bb..eb8c195 100644
--- a/licant/util.py
+++ b/licant/util.py
@@ -240,7 +240,7 @@ def find_recursive(root, pattern, hide, debug):
 cxx_read_depends_pattern = re.compile(r"(?:\\[ #]|[^\s\\])+")
 
 
-def cxx_read_depends(path):
+def cxx_read_depends(path, src=None):
     if not os.path.exists(path):
         return None
     else:
@@ -251,7 +251,13 @@ def cxx_read_depends(path):
             return None
 
         lst = cxx_read_depends_pattern.findall(text)
-        return [re.sub(r"\\([ #])", r"\1", h).replace("$$", "$") for h in lst[2:]]
+        lst = [re.sub(r"\\([ #])", r"\1", h).replace("$$", "$") for h in lst[1:]]
+
+        if src is not None and lst and canonical_path(lst[0]) != canonical_path(src):
+            # It was made of another source.
+            return None
+
+        return lst[1:]
 
 
 def get_actions(target):
-- 
2.43.0

