"""What one simulated run works with: a scratch tree, guarded calls, outcomes, probes."""

import hashlib
import os
import random
import shutil
import stat as statmod

from sim.kernel import K, REAL


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(kind, message)
        self.kind = kind
        self.message = message


class Outcome:
    __slots__ = ("value", "exc", "fired")

    def __init__(self, value, exc, fired):
        self.value = value
        self.exc = exc
        self.fired = fired

    @property
    def ok(self):
        return self.exc is None

    def desc(self):
        if self.exc is None:
            return "ok"
        return f"{type(self.exc).__name__}: {self.exc}"


def strip_tracebacks(e):
    """Exceptions keep frames, and frames keep specs alive; the application lets go of them."""
    seen = set()
    stack = [e]
    while stack:
        e = stack.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        e.__traceback__ = None
        stack.append(e.__cause__)
        stack.append(e.__context__)


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


def snapshot(top):
    """Entries of a directory tree with types, modes and contents."""
    result = {}
    K.inside += 1
    try:
        stack = [top]
        while stack:
            d = stack.pop()
            for entry in os.scandir(d):
                rel = os.path.relpath(entry.path, top)
                st = entry.stat(follow_symlinks=False)
                mode = st.st_mode
                if statmod.S_ISLNK(mode):
                    result[rel] = ("link", os.readlink(entry.path))
                elif statmod.S_ISDIR(mode):
                    result[rel] = ("dir", statmod.S_IMODE(mode))
                    stack.append(entry.path)
                elif statmod.S_ISREG(mode):
                    with REAL["io.open"](entry.path, "rb") as f:
                        result[rel] = ("file", statmod.S_IMODE(mode), f.read(), st.st_ino)
                else:
                    result[rel] = ("special", mode)
    finally:
        K.inside -= 1
    return result


def diff_snapshots(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(f"{k}: {_short(a.get(k))} -> {_short(b.get(k))}")
    return out


def _short(e):
    if e is None:
        return "absent"
    if e[0] == "file":
        return f"file({len(e[2])} bytes {e[2][:24]!r}, mode {e[1]:o}, inode {'#'})"
    return repr(e)


class World:
    def __init__(self, root, trace):
        self.root = root
        self.trace = trace
        self.probes = {}
        self.outcomes = hashlib.sha256()
        self.outcome_log = []
        self.ops_done = 0
        self.sim_seconds = 0.0
        self.ref = None
        if os.path.isdir(root):
            shutil.rmtree(root)
        os.makedirs(root)
        for d in ("tmp", "src", "ref"):
            os.mkdir(os.path.join(root, d))
        K.root = root
        os.chdir(root)

    # -- files, outside of the simulation --------------------------------------
    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def write(self, rel, data):
        K.inside += 1
        try:
            if isinstance(data, str):
                data = data.encode("utf8", "surrogateescape")
            with REAL["io.open"](self.path(rel), "wb") as f:
                f.write(data)
        finally:
            K.inside -= 1

    def read(self, rel):
        K.inside += 1
        try:
            with REAL["io.open"](self.path(rel), "rb") as f:
                return f.read()
        finally:
            K.inside -= 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, text):
        self.outcomes.update(text.encode("utf8", "surrogatepass") + b"\n")
        self.outcome_log.append(text)

    # -- guarded calls ------------------------------------------------------------
    def call(self, label, fn, faults=None):
        """One call of the API under the simulator; returns its Outcome."""
        value = exc = None
        K.begin(faults)
        try:
            value = fn()
        except BaseException as e:
            exc = e
        finally:
            K.end()
        fired = list(K.op_fired)
        if exc is not None:
            strip_tracebacks(exc)
        out = Outcome(value, exc, fired)
        if fired:
            self.probe("faulted ops")
            if exc is not None:
                self.probe("faulted ops that failed")
        self.log(f"{label} {[f[0] for f in fired]} {type(exc).__name__ if exc else 'ok'}")
        if K.violation:
            raise Violation(*K.violation)
        return out

    def must(self, label, fn, what="unexpected-exception"):
        """A call with no fault planned: it has to succeed."""
        out = self.call(label, fn)
        if out.exc is not None:
            raise Violation(what, f"{label} failed without a fault: {out.desc()}")
        return out.value


def norm_outcome_text(text, root):
    return text.replace(root, "$")
