"""The simulated kernel: every system call, librpm call, clock reading and identity the
library depends on passes through here, where the plan of a run decides what happens.

Nothing in here draws random numbers: a run is a pure function of its trace
(configuration, operations, faults) and of the code under test.
"""

import _pyio
import builtins
import errno
import gc
import io
import os
import sys
import tempfile
import weakref

REAL = {}  # name -> original os function


class SimInterrupt(KeyboardInterrupt):
    """KeyboardInterrupt delivered by the simulator."""


class SimMemoryError(MemoryError):
    """MemoryError delivered by the simulator."""


class SimOSError(OSError):
    pass


def make_oserror(name, path=None):
    code = getattr(errno, name)
    # OSError's constructor maps errno to the right subclass (PermissionError etc.)
    e = OSError(code, os.strerror(code), path)
    e.simulated = True
    return e


def is_simulated(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (SimInterrupt, SimMemoryError)) or getattr(
            e, "simulated", False
        ):
            return True
        e = e.__cause__ or e.__context__
    return False


class Event:
    __slots__ = ("n", "call", "path", "flags", "cat")

    def __init__(self, n, call, path, flags, cat):
        self.n = n
        self.call = call
        self.path = path
        self.flags = flags
        self.cat = cat


# which calls a fault kind can hit; "openw" are opens that may create or write
COMPAT = {
    "ENOSPC": {"openw", "write", "mkdir", "truncate", "link", "symlink", "sync"},
    "EDQUOT": {"openw", "write"},
    "EIO": {"openr", "openw", "read", "write", "close", "sync", "stat"},
    "EACCES": {"openr", "openw", "unlink", "stat", "rename", "mkdir", "link"},
    "EROFS": {"openw", "unlink", "rename", "mkdir", "truncate", "link", "symlink"},
    "EMFILE": {"openr", "openw", "dup", "pipe"},
    "SHORT": {"write"},
    "TORN": {"write"},
    # interruptions hit calls that can block, never the clean-up calls
    "KINT": {"openr", "openw", "read", "write", "stat", "rpm", "dup", "proc", "sync"},
    "MEM": {"openr", "openw", "rpm", "proc"},
}
MUTATING = {"openw", "unlink", "rmdir", "mkdir", "rename", "link", "symlink", "truncate"}


class Kernel:
    def __init__(self):
        self.armed = False
        self.inside = 0
        self.root = None
        self.locale_encoding = "utf-8"
        self.classify_path = lambda p: "other"
        self.fd_paths = {}
        self.observers = []
        self.ext_action = None
        self.total = 0
        self.fired = {}
        self.log = []
        self.violation = None
        self.plan = []
        self.n = 0
        self.torn_fds = set()
        self.failed_unlinks = []
        self.op_fired = []
        self.calls = {}

    # -- operation boundaries -------------------------------------------------
    def begin(self, plan):
        self.plan = [dict(f) for f in (plan or [])]
        self.n = 0
        self.torn_fds = set()
        self.dirty = set()
        self.failed_unlinks = []
        self.op_fired = []
        self.armed = True

    def end(self):
        self.armed = False
        self.plan = []
        self.torn_fds = set()

    # -- recording ------------------------------------------------------------
    def note(self, kind, call, path):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.op_fired.append((kind, call, path))
        self.log.append(f"!{kind}@{call}:{self.norm(path)}")

    def norm(self, path):
        if path is None:
            return ""
        p = str(path)
        if self.root and p.startswith(self.root):
            return "$" + p[len(self.root) :]
        return p

    def fail(self, kind, message):
        """Records a violation; the code under test cannot swallow it."""
        if self.violation is None:
            self.violation = (kind, message)

    # -- the one gate ---------------------------------------------------------
    def gate(self, call, path, flags, real, args, kwargs):
        """Runs one simulated call; `call` is the class used by COMPAT."""
        n = self.n
        self.n += 1
        self.total += 1
        self.calls[call] = self.calls.get(call, 0) + 1
        self.inside += 1
        try:
            cat = self.classify_path(path)
            ev = self.current = Event(n, call, path, flags, cat)
            self.log.append(f"{call}:{self.norm(path)}")
            if self.total > 300000:
                self.fail("livelock", "simulated call budget exceeded")
                raise SimInterrupt("simulated call budget exceeded")
            # another process, or the garbage collector, may act first
            for f in self.plan:
                if f["kind"] == "GC":
                    if not f.get("done") and self._counts(f, call, cat, path):
                        f["done"] = True
                        self.fired["GC"] = self.fired.get("GC", 0) + 1
                        self.log.append("!GC")
                        gc.collect()
                    continue
                if f["kind"] != "EXT" or f.get("done"):
                    continue
                if self._counts(f, call, cat, path):
                    f["done"] = True
                    if self.ext_action and self.ext_action(f):
                        self.note("EXT", call, path)
            for ob in self.observers:
                ob("before", ev)
            fault = self._pick(call, cat, path)
            if fault is None and call in MUTATING and not self._contained(path, flags):
                self.fail("escape", f"{call} outside of the scratch directory: {path}")
                raise make_oserror("EACCES", str(path))
        finally:
            self.inside -= 1
        if call == "write":
            self.dirty.add(path)
        elif call == "close":
            self.dirty.discard(path)
        if fault is not None:
            kind = fault["kind"]
            if kind == "KINT":
                self.note(kind, call, path)
                if fault.get("after") and call == "rpm":
                    # the signal arrived while RPM was at work
                    real(*args, **kwargs)
                raise SimInterrupt()
            if kind == "MEM":
                self.note(kind, call, path)
                raise SimMemoryError()
            if kind in ("SHORT", "TORN"):
                return self._short(kind, ev, args)
            self.note(kind, call, path)
            if call == "unlink":
                self.failed_unlinks.append(str(path))
            if call == "close":
                # a failing close still releases the descriptor
                real(*args, **kwargs)
            raise make_oserror(
                kind, str(path) if isinstance(path, str) and path else None
            )
        result = real(*args, **kwargs)
        if self.observers:
            self.inside += 1
            try:
                for ob in self.observers:
                    ob("after", ev)
            finally:
                self.inside -= 1
        return result

    def _contained(self, path, flags):
        if self.root is None or not isinstance(path, str):
            return True
        ok = path == "/dev/null" or path == self.root or path.startswith(self.root + "/")
        if ok and isinstance(flags, str):
            ok = flags == self.root or flags.startswith(self.root + "/")
        return ok

    @staticmethod
    def _counts(f, call, cat, path):
        """Whether fault `f` fires at this call (its k-th matching one)."""
        if f.get("call") and f["call"] != call:
            return False
        if f.get("cat") and f["cat"] != cat:
            return False
        if f.get("path") and not str(path).endswith(f["path"]):
            return False
        left = f.get("left", f.get("k", 0))
        if left > 0:
            f["left"] = left - 1
            return False
        return True

    def _pick(self, call, cat, path):
        if call == "write" and path in self.torn_fds:
            return {"kind": "ENOSPC"}
        for f in self.plan:
            if f["kind"] in ("EXT", "GC") or f.get("done"):
                continue
            if call not in COMPAT[f["kind"]]:
                continue
            if call == "close" and path not in self.dirty:
                # close reports failed write-back, so something must have been written
                continue
            if not self._counts(f, call, cat, path):
                continue
            if not f.get("sticky"):
                f["done"] = True
            return f
        return None

    def _short(self, kind, ev, args):
        fd, data = args[0], bytes(args[1])
        part = data[: max(1, len(data) // 2)] if len(data) > 1 else data
        self.note(kind, "write", ev.path)
        if kind == "TORN":
            self.torn_fds.add(ev.path)
        result = REAL["write"](fd, part)
        self.inside += 1
        try:
            for ob in self.observers:
                ob("after", ev)
        finally:
            self.inside -= 1
        return result


K = Kernel()

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _p(path):
    if isinstance(path, int):
        return K.fd_paths.get(path, f"fd:{'std' if path < 3 else 'other'}")
    try:
        p = os.fspath(path)
    except TypeError:
        return str(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not os.path.isabs(p):
        p = os.path.join(REAL["getcwd"](), p)
    return os.path.normpath(p)


def _install_os():
    def save(name):
        REAL[name] = getattr(os, name)
        return REAL[name]

    real_open = save("open")

    def sim_open_fd(path, flags, mode=0o777, *, dir_fd=None):
        if not K.armed or K.inside:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        p = _p(path)
        call = "openw" if flags & WRITE_FLAGS else "openr"

        def do(*a, **k):
            fd = real_open(path, flags, mode, dir_fd=dir_fd)
            K.fd_paths[fd] = p
            return fd

        return K.gate(call, p, flags, do, (), {})

    os.open = sim_open_fd

    def fdcall(name, cls):
        real = save(name)

        def w(fd, *a, **k):
            if not K.armed or K.inside:
                return real(fd, *a, **k)
            return K.gate(cls, _p(fd), 0, real, (fd,) + a, k)

        w.__name__ = name
        setattr(os, name, w)

    fdcall("read", "read")
    fdcall("write", "write")
    fdcall("ftruncate", "truncate")
    fdcall("fsync", "sync")
    fdcall("dup", "dup")

    real_close = save("close")

    def sim_close(fd):
        if not K.armed or K.inside:
            return real_close(fd)
        path = _p(fd)

        def do(fd):
            K.fd_paths.pop(fd, None)
            return real_close(fd)

        return K.gate("close", path, 0, do, (fd,), {})

    os.close = sim_close

    def pathcall(name, cls, two=False):
        real = save(name)

        def w(path, *a, **k):
            if not K.armed or K.inside:
                return real(path, *a, **k)
            p = _p(path)
            if two and a:
                p2 = _p(a[0])
                return K.gate(cls, p, p2, real, (path,) + a, k)
            return K.gate(cls, p, 0, real, (path,) + a, k)

        w.__name__ = name
        setattr(os, name, w)

    REAL["getcwd"] = os.getcwd
    for name in ("unlink", "remove"):
        pathcall(name, "unlink")
    pathcall("rmdir", "rmdir")
    pathcall("mkdir", "mkdir")
    for name in ("rename", "replace"):
        pathcall(name, "rename", True)
    for name in ("link", "symlink"):
        pathcall(name, name, True)
    pathcall("truncate", "truncate")
    for name in ("stat", "lstat"):
        pathcall(name, "stat")
    real_access = save("access")

    def sim_access(path, *a, **k):
        if not K.armed or K.inside:
            return real_access(path, *a, **k)
        try:
            return K.gate("stat", _p(path), 0, real_access, (path,) + a, k)
        except OSError:
            # the call itself never fails
            return False

    os.access = sim_access
    for name in ("chmod", "utime", "chown"):
        pathcall(name, "meta")
    for name in ("stat", "chmod", "utime", "chown", "link", "access"):
        if REAL[name] in os.supports_follow_symlinks:
            os.supports_follow_symlinks.add(getattr(os, name))
        if REAL[name] in os.supports_dir_fd:
            os.supports_dir_fd.add(getattr(os, name))
    for name in ("open", "unlink", "rmdir", "mkdir", "rename"):
        if REAL[name] in os.supports_dir_fd:
            os.supports_dir_fd.add(getattr(os, name))
    if REAL["stat"] in os.supports_fd:
        os.supports_fd.add(os.stat)


def _install_io():
    real_open = io.open
    REAL["io.open"] = real_open

    def sim_open(
        file,
        mode="r",
        buffering=-1,
        encoding=None,
        errors=None,
        newline=None,
        closefd=True,
        opener=None,
    ):
        if not K.armed or K.inside:
            return real_open(
                file, mode, buffering, encoding, errors, newline, closefd, opener
            )
        if not isinstance(file, int):
            file = os.fspath(file)
        modes = set(mode)
        if modes - set("axrwb+t") or len(mode) > len(modes):
            raise ValueError("invalid mode: %r" % mode)
        creating = "x" in modes
        reading = "r" in modes
        writing = "w" in modes
        appending = "a" in modes
        updating = "+" in modes
        text = "t" in modes
        binary = "b" in modes
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of read/write/append mode")
        if binary and (
            encoding is not None or errors is not None or newline is not None
        ):
            raise ValueError("binary mode doesn't take text arguments")
        raw = _pyio.FileIO(
            file,
            (creating and "x" or "")
            + (reading and "r" or "")
            + (writing and "w" or "")
            + (appending and "a" or "")
            + (updating and "+" or ""),
            closefd,
            opener=opener,
        )
        result = raw
        try:
            line_buffering = False
            if buffering == 1 or buffering < 0 and raw.isatty():
                buffering = -1
                line_buffering = True
            if buffering < 0:
                buffering = io.DEFAULT_BUFFER_SIZE
            if buffering == 0:
                if binary:
                    return result
                raise ValueError("can't have unbuffered text I/O")
            if updating:
                buffer = io.BufferedRandom(raw, buffering)
            elif creating or writing or appending:
                buffer = io.BufferedWriter(raw, buffering)
            else:
                buffer = io.BufferedReader(raw, buffering)
            result = buffer
            if binary:
                return result
            encoding = io.text_encoding(encoding)
            if encoding == "locale":
                # the locale belongs to the simulated world
                encoding = K.locale_encoding
            text_io = io.TextIOWrapper(
                buffer, encoding, errors, newline, line_buffering
            )
            result = text_io
            text_io.mode = mode
            return result
        except BaseException:
            result.close()
            raise

    sim_open.__name__ = "open"
    io.open = sim_open
    builtins.open = sim_open


class Names:
    """Deterministic temporary file names."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f"sim{self.n:06d}"


def _install_rpm():
    import rpm

    def wrap(name):
        real = getattr(rpm, name)
        REAL["rpm." + name] = real

        def w(*a, **k):
            if not K.armed or K.inside:
                return real(*a, **k)
            return K.gate("rpm", name, 0, real, a, k)

        w.__name__ = name
        w.__wrapped__ = real
        setattr(rpm, name, w)

    for name in ("spec", "reloadConfig", "addMacro", "delMacro", "expandMacro"):
        wrap(name)


class SimIds:
    """
    Simulated allocator for the identities the package uses: an identity is assigned when
    an object is created and handed to the next object of that class once it was freed.
    """

    def __init__(self):
        self.next = 1000
        self.free = {}
        self.table = {}  # real id -> (weakref, simulated id)
        self.reused = 0

    def register(self, obj):
        cls = type(obj).__name__
        pool = self.free.setdefault(cls, [])
        if pool:
            sid = pool.pop()
            self.reused += 1
        else:
            self.next += 1
            sid = self.next
        rid = id(obj)

        def gone(_, rid=rid, sid=sid, pool=pool):
            if self.table.get(rid, (None, None))[1] == sid:
                del self.table[rid]
            pool.append(sid)

        self.table[rid] = (weakref.ref(obj, gone), sid)

    def __call__(self, obj):
        entry = self.table.get(id(obj))
        if entry and entry[0]() is obj:
            return entry[1]
        return id(obj)


IDS = SimIds()


def _install_ids():
    import specfile.context_management
    import specfile.spec_parser
    import specfile.specfile

    for mod in (
        specfile.context_management,
        specfile.spec_parser,
        specfile.specfile,
    ):
        mod.id = IDS
    for cls in (specfile.spec_parser.SpecParser, specfile.specfile.Specfile):

        def new(c, *a, **k):
            o = object.__new__(c)
            IDS.register(o)
            return o

        cls.__new__ = staticmethod(new)


def install(tmpdir):
    """Puts the seams in place. Call after importing the package, once per process."""
    gc.disable()
    tempfile.tempdir = tmpdir
    tempfile._name_sequence = Names()
    _install_os()
    _install_io()
    _install_rpm()
    _install_ids()
    sys.setrecursionlimit(20000)
