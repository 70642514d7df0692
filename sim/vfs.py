"""In-memory file system with virtual time stamps, fault points and a durability model."""
import errno
import io
import os
import posixpath
import stat as st

from . import kernel

O_ACC = 3


def err(code, *paths):
    return OSError(code, os.strerror(code), *paths)


class Node:
    __slots__ = ("kind", "data", "children", "mtime", "mode", "ino", "target", "synced", "nlink", "version")
    counter = 0

    def __init__(self, fs, kind, mode):
        fs.inos += 1
        self.ino = fs.inos
        self.kind = kind
        self.mode = mode
        self.mtime = fs.stamp()
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.target = None
        self.synced = b""
        self.nlink = 1
        self.version = 0


class VFS:
    """Paths are absolute and virtual.  Methods starting with an underscore neither yield nor fault."""

    def __init__(self, k):
        self.k = k
        self.inos = 100
        self.gran = k.cfg.get("mtime_gran", 1)
        self.skew = 0
        self.cwd = "/"
        self.log_all = False
        self.root = Node(self, "d", 0o755)
        self.umask = 0o022
        self.fds = {}
        self.nextfd = 1_000_000
        self.journal = []         # how to take back changes to directories that may not have reached the disk
        self.capacity = None      # bytes of file data that fit, None = unlimited

    def stamp(self):
        t = self.k.now_ns + self.skew
        return t - t % self.gran

    # ---- path walking
    def absolute(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        return path

    def _walk(self, path, follow=True, depth=0, orig=None):
        """(parent node, name, node or None, real path)"""
        if depth > 40:
            raise err(errno.ELOOP, orig or path)
        orig = orig or path
        if path == "":
            raise err(errno.ENOENT, orig)
        parts = self.absolute(path).split("/")
        trailing = parts[-1] == "" and len(parts) > 1
        parts = [p for p in parts if p not in ("", ".")]
        stack = [(self.root, "")]
        i = 0
        while i < len(parts):
            p = parts[i]
            cur = stack[-1][0]
            if cur.kind != "d":
                raise err(errno.ENOTDIR, orig)
            if p == "..":
                if len(stack) > 1:
                    stack.pop()
                i += 1
                continue
            nd = cur.children.get(p)
            last = i == len(parts) - 1
            if nd is None:
                if last:
                    return cur, p, None, self._pathof(stack, p)
                raise err(errno.ENOENT, orig)
            if nd.kind == "l" and (not last or follow or trailing):
                base = self._pathof(stack, "")
                tgt = nd.target if nd.target.startswith("/") else posixpath.join(base, nd.target)
                rest = "/".join(parts[i + 1:])
                return self._walk(posixpath.join(tgt, rest) if rest else tgt, follow, depth + 1, orig)
            stack.append((nd, p))
            i += 1
        if len(stack) == 1:
            return self.root, "", self.root, "/"
        nd, name = stack[-1]
        if trailing and nd.kind != "d":
            raise err(errno.ENOTDIR, orig)
        return stack[-2][0], name, nd, self._pathof(stack, "")

    @staticmethod
    def _pathof(stack, name):
        s = "/".join(n for _, n in stack)
        if name:
            s = s + "/" + name
        return s or "/"

    def _find(self, path, follow=True):
        nd = self._walk(path, follow)[2]
        if nd is None:
            raise err(errno.ENOENT, path)
        return nd

    # ---- harness access (no yield, no fault)
    def _exists(self, path):
        try:
            return self._walk(path)[2] is not None
        except OSError:
            return False

    def _read(self, path):
        nd = self._find(path)
        if nd.kind != "f":
            raise err(errno.EISDIR, path)
        return bytes(nd.data)

    def _mkdirs(self, path):
        cur = self.root
        for p in self.absolute(path).split("/"):
            if p in ("", "."):
                continue
            nd = cur.children.get(p)
            if nd is None:
                nd = cur.children[p] = Node(self, "d", 0o755)
            cur = nd

    def _write(self, path, data, mode=0o644):
        if isinstance(data, str):
            data = data.encode()
        parent, name, nd, real = self._walk(path)
        if nd is None:
            nd = parent.children[name] = Node(self, "f", mode)
            parent.mtime = self.stamp()
        nd.data[:] = data
        nd.mtime = self.stamp()
        nd.version += 1
        nd.synced = bytes(data)
        return nd

    def _unlink(self, path):
        parent, name, nd, real = self._walk(path, False)
        if nd is None:
            raise err(errno.ENOENT, path)
        if nd.kind == "d":
            raise err(errno.EISDIR, path)
        del parent.children[name]
        parent.mtime = self.stamp()

    def _rmtree(self, path):
        parent, name, nd, real = self._walk(path, False)
        if nd is not None and name:
            del parent.children[name]

    def _tree(self, root="/"):
        """{path: bytes} of all files, {path} of dirs below root."""
        files, dirs = {}, set()

        def rec(nd, path):
            for n in sorted(nd.children):
                c = nd.children[n]
                p = path.rstrip("/") + "/" + n
                if c.kind == "d":
                    dirs.add(p)
                    rec(c, p)
                elif c.kind == "f":
                    files[p] = bytes(c.data)
                else:
                    files[p] = b"-> " + c.target.encode()
        nd = self._find(root)
        rec(nd, root)
        return files, dirs

    def sync_all(self):
        """Everything written so far is on the disk."""
        def rec(nd):
            for c in nd.children.values():
                if c.kind == "d":
                    rec(c)
                elif c.kind == "f":
                    c.synced = bytes(c.data)
        rec(self.root)
        del self.journal[:]

    def _undo(self, parent, name, old):
        def back():
            if old is None:
                parent.children.pop(name, None)
            else:
                parent.children[name] = old
        self.journal.append(back)

    def power_cut(self):
        """Unsynced file data is lost wholly, partly or not at all, and the latest changes of directories are lost, as chosen."""
        n = self.k.ch.number(len(self.journal) + 1) if self.journal else 0
        if n:
            self.k.count("power.directory_changes_lost", n)
        for _ in range(n):
            self.journal.pop()()
        del self.journal[:]

        def rec(nd):
            for n in sorted(nd.children):
                c = nd.children[n]
                if c.kind == "d":
                    rec(c)
                elif c.kind == "f" and bytes(c.data) != c.synced:
                    v = self.k.ch.number(4)
                    if v == 0:
                        new = c.synced
                    elif v == 1:
                        new = bytes(c.data)
                    elif v == 2:
                        new = b""
                    else:
                        new = bytes(c.data[:len(c.data) // 2])
                    self.k.count("power.lost" if new != bytes(c.data) else "power.kept")
                    c.data[:] = new
                    c.synced = new
        rec(self.root)

    # ---- operations of the system under test
    def op(self, op, path, mutate=False, **kw):
        k = self.k
        k.yield_point("fs")
        if k.fault is not None:
            e = k.fault(op, path)
            if e:
                k.count("fault.fs.%s.%s" % (op, errno.errorcode.get(e, e)))
                k.log("fs_fault", op=op, path=str(path), err=errno.errorcode.get(e, e))
                raise err(e, path)

    def note(self, op, real, actor=None):
        """Log a mutation."""
        if actor is None:
            _, t = kernel.current()
            actor = ("thread", t.step) if t is not None else ("harness", None)
        self.k.log("fs", op=op, path=real, actor=actor)

    def stat(self, path, follow=True):
        self.op("stat", path)
        return self._stat(path, follow)

    def _stat(self, path, follow=True):
        if isinstance(path, int):
            return self._statnode(self.fds[path].node)
        return self._statnode(self._find(path, follow))

    def _statnode(self, nd):
        fmt = {"f": st.S_IFREG, "d": st.S_IFDIR, "l": st.S_IFLNK}[nd.kind]
        size = len(nd.data) if nd.kind == "f" else len(nd.target) if nd.kind == "l" else 4096
        t = nd.mtime
        s = t // 1_000_000_000
        f = t / 1e9
        return os.stat_result((fmt | nd.mode, nd.ino, 1, nd.nlink, 0, 0, size, s, s, s),
                              {"st_atime": f, "st_mtime": f, "st_ctime": f,
                               "st_atime_ns": t, "st_mtime_ns": t, "st_ctime_ns": t})

    def mkdir(self, path, actor=None):
        parent, name, nd, real = self._walk(path, False)
        if nd is not None:
            raise err(errno.EEXIST, path)
        self._undo(parent, name, None)
        parent.children[name] = Node(self, "d", 0o755)
        parent.mtime = self.stamp()
        self.note("mkdir", real, actor)

    def rmdir(self, path, actor=None):
        parent, name, nd, real = self._walk(path, False)
        if nd is None:
            raise err(errno.ENOENT, path)
        if nd.kind != "d":
            raise err(errno.ENOTDIR, path)
        if nd.children:
            raise err(errno.ENOTEMPTY, path)
        self._undo(parent, name, nd)
        del parent.children[name]
        parent.mtime = self.stamp()
        self.note("rmdir", real, actor)

    def unlink(self, path, actor=None):
        parent, name, nd, real = self._walk(path, False)
        if nd is None:
            raise err(errno.ENOENT, path)
        if nd.kind == "d":
            raise err(errno.EISDIR, path)
        self._undo(parent, name, nd)
        del parent.children[name]
        nd.nlink -= 1
        parent.mtime = self.stamp()
        self.note("unlink", real, actor)

    def rename(self, a, b, actor=None):
        pa, na, nda, ra = self._walk(a, False)
        if nda is None:
            raise err(errno.ENOENT, a)
        pb, nb, ndb, rb = self._walk(b, False)
        if ndb is nda:
            return
        if ndb is not None:
            if ndb.kind == "d" and nda.kind != "d":
                raise err(errno.EISDIR, b)
            if ndb.kind != "d" and nda.kind == "d":
                raise err(errno.ENOTDIR, b)
            if ndb.kind == "d" and ndb.children:
                raise err(errno.ENOTEMPTY, b)
        def back():
            if ndb is None:
                pb.children.pop(nb, None)
            else:
                pb.children[nb] = ndb
            pa.children[na] = nda
        self.journal.append(back)
        del pa.children[na]
        pb.children[nb] = nda
        pa.mtime = pb.mtime = self.stamp()
        self.note("rename_from", ra, actor)
        self.note("rename_to", rb, actor)

    def symlink(self, target, path, actor=None):
        parent, name, nd, real = self._walk(path, False)
        if nd is not None:
            raise err(errno.EEXIST, path)
        self._undo(parent, name, None)
        n = parent.children[name] = Node(self, "l", 0o777)
        n.target = os.fspath(target)
        self.note("symlink", real, actor)

    def link(self, a, b, actor=None):
        nd = self._find(a, False)
        parent, name, old, real = self._walk(b, False)
        if old is not None:
            raise err(errno.EEXIST, b)
        self._undo(parent, name, None)
        parent.children[name] = nd
        nd.nlink += 1
        self.note("link", real, actor)

    def readlink(self, path):
        nd = self._find(path, False)
        if nd.kind != "l":
            raise err(errno.EINVAL, path)
        return nd.target

    def listdir(self, path):
        nd = self._find(path)
        if nd.kind != "d":
            raise err(errno.ENOTDIR, path)
        # the order of directory entries is arbitrary in reality: a fixed scramble per run
        salt = self.k.cfg.get("dirsalt", 0)
        return sorted(nd.children, key=lambda n: hash_str(n, salt))

    def utime(self, path, ns=None):
        nd = self._find(path)
        nd.mtime = self.stamp() if ns is None else ns

    def open_node(self, path, flags, mode=0o666, actor=None):
        """Node for os.open-like flags."""
        follow = not flags & getattr(os, "O_NOFOLLOW", 0)
        parent, name, nd, real = self._walk(path, follow)
        writing = flags & O_ACC != os.O_RDONLY
        if nd is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            self._undo(parent, name, None)
            nd = parent.children[name] = Node(self, "f", mode & ~self.umask)
            parent.mtime = self.stamp()
            self.note("create", real, actor)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if nd.kind == "d":
                if writing:
                    raise err(errno.EISDIR, path)
                return nd, real
            if flags & os.O_TRUNC and writing:
                if nd.data:
                    del nd.data[:]
                nd.mtime = self.stamp()
                nd.version += 1
                self.note("truncate", real, actor)
        return nd, real

    def write_node(self, nd, pos, data):
        if self.capacity is not None:
            # a full disk: whatever fits is written
            room = max(0, self.capacity)
            if room == 0:
                self.k.count("fault.fs.write.ENOSPC")
                raise err(errno.ENOSPC)
            if len(data) > room:
                self.k.count("fault.fs.write.short")
            data = bytes(data)[:room]
            self.capacity -= len(data)
        if pos > len(nd.data):
            nd.data.extend(b"\0" * (pos - len(nd.data)))
        nd.data[pos:pos + len(data)] = data
        nd.mtime = self.stamp()
        nd.version += 1
        return len(data)

    # ---- file objects
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        binary = "b" in mode
        m = mode.replace("b", "").replace("t", "")
        plus = "+" in m
        base = m.replace("+", "")
        if base not in ("r", "w", "a", "x"):
            raise ValueError("invalid mode: %r" % mode)
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[base]
        if plus:
            flags = (flags & ~O_ACC) | os.O_RDWR
        if isinstance(file, int):
            raw = self.fds.get(file)
            if raw is None:
                raise err(errno.EBADF)
            raw.set_mode(flags)
        elif opener is not None:
            fd = opener(file, flags)
            raw = self.fds[fd]
        else:
            raw = self.open_raw(file, flags)
        raw.name = file
        if buffering == 0:
            return raw
        if plus:
            buf = io.BufferedRandom(raw)
        elif base == "r":
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def open_raw(self, path, flags, mode=0o666):
        writing = flags & O_ACC != os.O_RDONLY
        self.op("open_w" if writing else "open_r", path)
        nd, real = self.open_node(path, flags, mode)
        if nd.kind == "d" and not flags & getattr(os, "O_DIRECTORY", 0):
            # reading a directory as a file fails at open() level of Python
            raise err(errno.EISDIR, path)
        _, t = kernel.current()
        raw = VFile(self, nd, real, flags, ("thread", t.step if t is not None else None))
        if writing:
            self.k.log("open_w", path=real, actor=raw.actor)
        return raw


class VFile(io.RawIOBase):
    def __init__(self, fs, node, real, flags, actor):
        self.fs, self.node, self.real = fs, node, real
        self.epoch = fs.k.epoch
        self.pos = 0
        self.actor = actor
        self.name = real
        self.set_mode(flags)
        fs.nextfd += 1
        self.fd = fs.nextfd
        fs.fds[self.fd] = self

    def set_mode(self, flags):
        acc = flags & O_ACC
        self.can_r = acc in (os.O_RDONLY, os.O_RDWR)
        self.can_w = acc in (os.O_WRONLY, os.O_RDWR)
        self.append = bool(flags & os.O_APPEND)
        self.mode = "rb+" if self.can_r and self.can_w else "wb" if self.can_w else "rb"

    def dead(self):
        k = self.fs.k
        return kernel.K is not k or k.killed or k.epoch != self.epoch

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return self.can_r

    def writable(self):
        return self.can_w

    def seekable(self):
        return True

    def readinto(self, b):
        if not self.can_r:
            raise io.UnsupportedOperation("not readable")
        if self.dead():
            return 0
        self.fs.op("read", self.real)
        d = self.node.data[self.pos:self.pos + len(b)]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        if not self.can_w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        if self.dead():
            return len(data)
        self.fs.op("write", self.real)
        if self.append:
            self.pos = len(self.node.data)
        # a write may be short; the buffered layer above carries on with the rest
        n = len(data)
        if n > 1 and self.fs.k.cfg.get("short_writes") and self.fs.k.ch.number(3):
            self.fs.k.count("fault.fs.write.short")
            n = (n + 1) // 2
        n = self.fs.write_node(self.node, self.pos, data[:n])
        self.pos += n
        return n

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.node.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        if self.dead():
            return 0
        size = self.pos if size is None else size
        del self.node.data[size:]
        self.node.mtime = self.fs.stamp()
        return size

    def fsync(self):
        if self.dead():
            return
        self.fs.op("fsync", self.real)
        if self.node.kind == "f":
            self.node.synced = bytes(self.node.data)
        elif self.node.kind == "d":
            del self.fs.journal[:]

    def close(self):
        if not self.closed:
            self.fs.fds.pop(self.fd, None)
            if self.can_w and not self.dead():
                self.fs.k.log("close_w", path=self.real, actor=self.actor)
        super().close()


def hash_str(s, salt=0):
    h = 1469598103934665603 ^ salt
    for c in s.encode("utf-8", "surrogateescape"):
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    h ^= h >> 29
    return (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
