"""Fault-injecting file layer.

Files live in the run's real scratch directory; every call of the code under test that touches them goes through here
(open, os.open/write/fsync/replace/rename/unlink/... and what is built on them).  Below the page cache it keeps a model of what
would survive a power loss: the content of each file at its last fsync, and the directory operations that happened since.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil

from . import core
from .core import SimCrash

R = {n: getattr(os, n) for n in ("open", "close", "write", "read", "pwrite", "writev", "fsync", "fdatasync", "replace", "rename", "unlink",
                                 "remove", "mkdir", "rmdir", "link", "symlink", "truncate", "ftruncate", "sync",
                                 "listdir", "scandir")}
real_open = io.open

CUR: "FaultFS | None" = None


def _path(p):
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.abspath(p)


class FaultFS:
    """faults: dict kind -> probability; kinds: enospc, eio_write, eio_read, eio_fsync, eio_rename, eio_open, eio_close,
    short_write, short_read, crash (killed at an operation), torn (killed inside a write)."""

    def __init__(self, sim, root, faults=None, only=None):
        self.sim = sim
        self.ch = sim.ch
        self.root = os.path.abspath(root) + "/"
        self.faults = faults or {}
        self.only = only               # None or predicate on the path: which files get faults
        self.fds = {}                  # fd -> path
        self.ids = {}                  # inode -> own number
        self.dropped = {}              # inode -> content whose fsync failed
        self.synced = {}               # inode -> content at its last fsync
        self.ns0 = {}                  # durable names: path -> inode
        self.ops = []                  # directory operations since: (kind, path, inode)
        self.keep = {}                 # inode -> open fd that keeps an unlinked inode alive (numbers are not reused)
        self.encoding = "utf-8"        # the default of the simulated platform
        self.nops = 0
        self.errors = {}               # thread -> injected errors
        self.crash_at_op = -1          # killed at the n-th operation from now
        self.on_op = None
        self.crashed = False
        self.readlog = None            # list of (thread, data) when reads are recorded
        self.links = {}                # symbolic links
        self.opens_w = []              # paths opened for writing or replaced
        for dp, _dn, fn in os.walk(self.root):
            for f in fn:
                self._adopt(os.path.join(dp, f))

    def _adopt(self, p):
        if os.path.islink(p):
            self.links[p] = os.readlink(p)
            return
        st = os.stat(p)
        with real_open(p, "rb") as f:
            self.synced[st.st_ino] = f.read()
        self.ns0[p] = st.st_ino

    # ---- bookkeeping
    def mine(self, p):
        if p is None or not p.startswith(self.root):
            return False
        s = core.ACTIVE
        return s is self.sim and (s.is_sim_thread() or self.crashed)

    def rel(self, p):
        return p[len(self.root):] if p else p

    def fault(self, kind, p):
        q = self.faults.get(kind, 0)
        if q and (self.only is None or self.only(p)) and self.ch.chance(q):
            self.sim.count(kind)
            self.sim.log("fault", kind)
            t = self.sim.cur.id if self.sim.cur else -1
            if not kind.startswith("short"):
                self.errors[t] = self.errors.get(t, 0) + 1
            return True
        return False

    def dead(self):
        if self.sim.frozen:
            self.crashed = True
            raise SimCrash

    def kill(self, why):
        self.sim.count(why)
        self.sim.log("fault", why)
        self.sim.frozen = True
        self.crashed = True
        raise SimCrash

    def op(self, what, p):
        """Every operation passes here."""
        self.dead()
        self.nops += 1
        s = self.sim
        s.mix((what, os.path.basename(p or "")[:3]))
        if self.on_op:
            self.on_op(what, p)
        if self.crash_at_op >= 0:
            self.crash_at_op -= 1
            if self.crash_at_op < 0:
                if what == "write":
                    self._crash_now = True
                else:
                    self.kill("killed_at_" + what)
        if self.fault("crash", p):
            self.kill("killed_at_" + what)
        s.point("fs")

    def dirop(self, kind, p, ino):
        self.ops.append((kind, p, ino))

    def hold(self, p):
        """Keep the inode behind p alive so that its number is not reused."""
        try:
            st = os.stat(p)
        except OSError:
            return None
        if st.st_ino not in self.keep:
            self.keep[st.st_ino] = R["open"](p, os.O_RDONLY)
        return st.st_ino

    # ---- operations
    def open_(self, p, flags, mode=0o666):
        p = os.path.realpath(p)
        self.op("open", p)
        if self.fault("eio_open", p):
            raise OSError(self.ch.pick((errno.EIO, errno.EMFILE, errno.EACCES)), "injected", p)
        existed = os.path.exists(p)
        if flags & os.O_CREAT and not existed and self.fault("enospc", p):
            raise OSError(errno.ENOSPC, "No space left on device", p)
        fd = R["open"](p, flags, mode)
        ino = os.fstat(fd).st_ino
        if not os.path.isdir(p):
            self.hold(p)
            if not existed:
                self.dirop("add", p, ino)
                self.synced.setdefault(ino, b"")
        self.fds[fd] = p
        if flags & (os.O_WRONLY | os.O_RDWR):
            self.opens_w.append(p)
        return fd

    def write_(self, fd, data):
        p = self.fds[fd]
        self.op("write", p)
        data = bytes(data)
        n = len(data)
        if self._due(p, n):
            k = self.ch.draw(n + 1)
            if k:
                R["write"](fd, data[:k])
            self.kill("killed_in_write")
        if self.fault("enospc", p):
            k = self.ch.draw(n) if n else 0
            if k:
                return R["write"](fd, data[:k])       # a short write; the next one fails
            raise OSError(errno.ENOSPC, "No space left on device", p)
        if self.fault("eio_write", p):
            k = self.ch.draw(n) if n else 0
            if k:
                R["write"](fd, data[:k])
            raise OSError(errno.EIO, "Input/output error", p)
        if n > 1 and self.fault("short_write", p):
            return R["write"](fd, data[: self.ch.between(1, n - 1)])
        return R["write"](fd, data)

    def _due(self, p, n):
        if self._crash_now:
            self._crash_now = False
            return True
        return self.fault("torn", p)

    _crash_now = False

    def arm(self, n):
        """Kill the process at the n-th operation from now (inside it, when it is a write)."""
        self.crash_at_op = n

    def read_(self, raw, b):
        p = self.fds.get(raw.fileno())
        self.op("read", p)
        if self.fault("eio_read", p):
            raise OSError(errno.EIO, "Input/output error", p)
        if len(b) > 1 and self.fault("short_read", p):
            b = memoryview(b)[:self.ch.between(1, max(1, min(len(b) - 1, 64)))]
        n = io.FileIO.readinto(raw, b)
        if self.readlog is not None:
            self.readlog.append((self.sim.cur.id, bytes(memoryview(b)[:n])))
        return n

    def fsync_(self, fd):
        p = self.fds.get(fd)
        self.op("fsync", p)
        if self.fault("eio_fsync", p):
            if p is not None and not os.path.isdir(p):      # what was dirty is dropped: a second fsync does not bring it back
                with real_open(f"/proc/self/fd/{fd}", "rb") as f:
                    self.dropped[os.fstat(fd).st_ino] = f.read()
            raise OSError(errno.EIO, "Input/output error")
        if p is not None:
            st = os.fstat(fd)
            if os.path.isdir(p):
                self._commit_ops()
            else:
                with real_open(f"/proc/self/fd/{fd}", "rb") as f:
                    data = f.read()
                lost = self.dropped.get(st.st_ino)
                if not lost or not data.startswith(lost):
                    self.synced[st.st_ino] = data

    def _commit_ops(self):
        self.ns0 = self._namespace(len(self.ops))
        self.ops = []

    def _namespace(self, n):
        ns = dict(self.ns0)
        for kind, p, ino in self.ops[:n]:
            if kind == "add":
                ns[p] = ino
            elif kind == "del":
                ns.pop(p, None)
            else:                       # rename: ino = (source, inode)
                src, i = ino
                ns.pop(src, None)
                ns[p] = i
        return ns

    def rename_(self, src, dst, fn):
        self.op("rename", dst)
        if self.fault("eio_rename", dst):
            raise OSError(self.ch.pick((errno.EIO, errno.ENOSPC, errno.EACCES)), "injected", dst)
        i = self.hold(src)
        self.hold(dst)
        fn(src, dst)
        self.opens_w.append(dst)
        self.dirop("ren", dst, (src, i))

    def unlink_(self, p, fn):
        self.op("unlink", p)
        i = self.hold(p)
        fn(p)
        self.dirop("del", p, i)

    def link_(self, src, dst, fn):
        self.op("link", dst)
        i = self.hold(src)
        fn(src, dst)
        self.opens_w.append(dst)
        self.dirop("add", dst, i)

    # ---- power loss
    def power_loss(self):
        """Rewrite the scratch directory to a state the disk may be left in when power is lost now."""
        ch = self.ch
        self.sim.count("power_loss")
        n = len(self.ops) - ch.draw(len(self.ops) + 1)
        ns = self._namespace(n)
        content = {}
        names_now = self._namespace(len(self.ops))
        for ino in sorted(set(ns.values()), key=lambda i: min(p for p, j in ns.items() if j == i)):
            cur = self._current(ino, names_now)
            old = self.synced.get(ino, b"")
            if cur is None:
                cur = old
            if cur == old:
                content[ino] = cur
                continue
            k = ch.draw(4)
            if k == 0:
                c = cur[: ch.draw(len(cur) + 1)]
            elif k == 1:
                c = old
            elif k == 2:
                c = b""
            else:
                c = cur
            content[ino] = c
        for p in sorted(set(names_now) | set(ns)):
            if os.path.lexists(p):
                R["unlink"](p)
        done = {}
        for p, ino in sorted(ns.items()):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with real_open(p, "wb") as f:
                f.write(content[ino])
            done[p] = ino
        for p, target in self.links.items():
            if p not in ns and not os.path.lexists(p):
                os.symlink(target, p)
        return n

    def _current(self, ino, names_now):
        fd = self.keep.get(ino)
        if fd is not None:
            with real_open(f"/proc/self/fd/{fd}", "rb") as f:
                return f.read()
        for p, i in names_now.items():
            if i == ino and os.path.exists(p):
                with real_open(p, "rb") as f:
                    return f.read()
        return None

    def close(self):
        for fd in self.keep.values():
            R["close"](fd)
        self.keep = {}


class SimRaw(io.FileIO):
    """Raw file of the scratch directory."""

    _fs = None

    def write(self, b):
        fs = self._fs
        if fs is None or fs is not CUR or not fs.mine(fs.fds.get(self.fileno(), "")):
            if fs is not None and fs.sim.frozen:
                return len(bytes(b))
            return io.FileIO.write(self, b)
        return fs.write_(self.fileno(), b)

    def readinto(self, b):
        fs = self._fs
        if fs is None or fs is not CUR or not fs.mine(fs.fds.get(self.fileno(), "")):
            return io.FileIO.readinto(self, b)
        return fs.read_(self, b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def readall(self):
        out = b""
        while True:
            buf = bytearray(256)
            k = self.readinto(buf)
            if not k:
                return out
            out += bytes(buf[:k])

    def truncate(self, size=None):
        fs = self._fs
        if fs is not None and fs is CUR and fs.mine(fs.fds.get(self.fileno(), "")):
            fs.op("truncate", fs.fds.get(self.fileno()))
        return io.FileIO.truncate(self, size)

    def close(self):
        fs = self._fs
        if fs is not None and not self.closed and fs is CUR:
            p = fs.fds.pop(self.fileno(), None)
            io.FileIO.close(self)
            if p is not None and fs.mine(p) and not fs.sim.frozen and fs.fault("eio_close", p):
                raise OSError(errno.EIO, "Input/output error", p)
            return
        io.FileIO.close(self)


def _flags(mode):
    f = 0
    plus = "+" in mode
    if "r" in mode:
        f = os.O_RDWR if plus else os.O_RDONLY
    elif "w" in mode:
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif "x" in mode:
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    elif "a" in mode:
        f = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    return f | os.O_CLOEXEC


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = CUR
    if fs is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        p = fs.fds.get(file)
        if p is None or not fs.mine(p) or os.path.isdir(p):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
        rm = mode.replace("t", "").replace("b", "").replace("U", "")
        raw = SimRaw(fd, rm if "w" not in rm or "+" in rm else "w", closefd=closefd)
    else:
        p = _path(file)
        if p is None or not fs.mine(p) or os.path.isdir(p):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rm = mode.replace("t", "").replace("b", "").replace("U", "") or "r"
        if len(set(rm) & set("rwxa")) != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        fd = opener(file, _flags(rm)) if opener is not None else fs.open_(p, _flags(rm))
        fs.fds.setdefault(fd, p)
        raw = SimRaw(fd, {"x": "w", "x+": "w+", "+x": "w+"}.get(rm, rm), closefd=True)
    raw._fs = fs
    try:
        raw.name = file
    except Exception:
        pass
    text = "b" not in mode
    if not text and (encoding or errors or newline):
        raise ValueError("binary mode doesn't take an encoding argument")
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and text
    size = buffering if buffering > 1 else fs.bufsize
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wxa"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if not text:
        return buf
    t = io.TextIOWrapper(buf, fs.encoding if encoding in (None, "locale") else encoding, errors, newline, line)
    t.mode = mode
    return t


FaultFS.bufsize = 8192


def _w_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = CUR
    p = _path(path) if dir_fd is None else None
    if fs is None or not fs.mine(p):
        return R["open"](path, flags, mode, dir_fd=dir_fd)
    return fs.open_(p, flags, mode)


def _w_close(fd):
    fs = CUR
    if fs is not None:
        fs.fds.pop(fd, None)
    return R["close"](fd)


def _w_write(fd, data):
    fs = CUR
    if fs is None or fd not in fs.fds or not fs.mine(fs.fds[fd]):
        return R["write"](fd, data)
    return fs.write_(fd, data)


def _w_fsync(name):
    def f(fd):
        fs = CUR
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fs is None or fd not in fs.fds or not fs.mine(fs.fds[fd]):
            return R[name](fd)
        return fs.fsync_(fd)
    return f


def _w_rename(name):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        fs = CUR
        s, d = _path(src), _path(dst)
        if fs is None or not fs.mine(d):
            return R[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        return fs.rename_(s, d, R[name])
    return f


def _w_unlink(name):
    def f(path, *, dir_fd=None):
        fs = CUR
        p = _path(path) if dir_fd is None else None
        if fs is None or not fs.mine(p):
            return R[name](path, dir_fd=dir_fd)
        return fs.unlink_(p, R[name])
    return f


def _w_link(name):
    def f(src, dst, **k):
        fs = CUR
        d = _path(dst)
        if fs is None or not fs.mine(d):
            return R[name](src, dst, **k)
        return fs.link_(_path(src), d, R[name])
    return f


def _order(names):
    """A directory lists its entries in an order of the file system's choice."""
    names = sorted(names)
    s = CUR.sim
    for i in range(len(names) - 1, 0, -1):
        j = s.ch.draw(i + 1)
        names[i], names[i - j] = names[i - j], names[i]
    return names


def _w_listdir(path="."):
    fs = CUR
    p = _path(path)
    if fs is None or p is None or not fs.mine(p + "/"):
        return R["listdir"](path)
    fs.op("readdir", p)
    names = _order([os.fsdecode(n) for n in R["listdir"](p)])
    return [os.fsencode(n) for n in names] if isinstance(path, bytes) else names


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _w_scandir(path="."):
    fs = CUR
    p = _path(path)
    if fs is None or p is None or not fs.mine(p + "/"):
        return R["scandir"](path)
    fs.op("readdir", p)
    with R["scandir"](path) as it:
        by = {os.fsdecode(e.name): e for e in it}
    return _Scan([by[n] for n in _order(by)])


def _w_sync():
    fs = CUR
    if fs is None:
        return None
    fs.op("sync", None)
    for ino in list(fs.keep):
        fs.synced[ino] = fs._current(ino, {}) or b""
    fs._commit_ops()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = _w_open
    os.close = _w_close
    os.write = _w_write
    os.fsync = _w_fsync("fsync")
    os.fdatasync = _w_fsync("fdatasync")
    os.replace = _w_rename("replace")
    os.rename = _w_rename("rename")
    os.unlink = _w_unlink("unlink")
    os.remove = _w_unlink("remove")
    os.link = _w_link("link")
    os.sync = _w_sync
    os.listdir = _w_listdir
    os.scandir = _w_scandir
    shutil._USE_CP_SENDFILE = False


class mounted:
    """with mounted(fs): the layer is active."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global CUR
        install()
        CUR = self.fs
        return self.fs

    def __exit__(self, *a):
        global CUR
        CUR = None
        self.fs.close()
