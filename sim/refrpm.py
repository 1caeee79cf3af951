"""
The reference: RPM itself, in a process nothing else has touched.

A pristine process is forked off before any RPM call of a run; every question forks it again,
so every answer is RPM's in a fresh process. It does not use a line of the package's code.
"""

import json
import os
import socket
import struct


def _recv(sock):
    buf = b""
    while len(buf) < 4:
        d = sock.recv(4 - len(buf))
        if not d:
            return None
        buf += d
    n = struct.unpack("!I", buf)[0]
    parts = []
    while n:
        d = sock.recv(min(n, 1 << 20))
        if not d:
            return None
        parts.append(d)
        n -= len(d)
    return json.loads(b"".join(parts).decode("ascii"))


def _send(sock, obj):
    data = json.dumps(obj).encode("ascii")
    sock.sendall(struct.pack("!I", len(data)) + data)


def _answer(req):
    """Runs in a forked child of the pristine process."""
    import rpm

    os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
    os.environ.update(req.get("env") or {})
    scratch = req["scratch"]
    os.makedirs(scratch, exist_ok=True)
    err = os.path.join(scratch, "stderr")
    fd = os.open(err, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 2)

    def stderr():
        with open(err, "rb") as f:
            return f.read().decode("utf8", "surrogateescape")

    sourcedir = req["sourcedir"]
    # macros taken out or defined by the user of the library
    for name, value in req.get("macros") or []:
        _undefine(rpm, name)
        if value is not None:
            rpm.addMacro(name, value)
    _undefine(rpm, "_sourcedir")
    rpm.addMacro("_sourcedir", sourcedir)
    path = os.path.join(scratch, "ref.spec")
    with open(path, "wb") as f:
        f.write(req["text"].encode("utf8", "surrogateescape"))
    created = []
    if req.get("materialise"):
        created = _materialise(rpm, path, sourcedir)
    try:
        return _evaluate(rpm, req, path, stderr)
    finally:
        for p in created:
            os.unlink(p)


def _twin(req):
    """
    The same operation on a fresh instance in a fresh process, with nothing going wrong.
    The document is given by its text alone.
    """
    from specfile import Specfile

    from sim import ops

    scratch = req["scratch"]
    os.makedirs(scratch, exist_ok=True)
    fd = os.open(os.path.join(scratch, "stderr"), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 2)
    os.environ.update(req.get("env") or {})
    path = os.path.join(scratch, "twin.spec")

    def put(text):
        with open(path, "wb") as f:
            f.write(text.encode("utf8", "surrogateescape"))

    put(MINIMAL)
    kw = {}
    if req.get("force"):
        kw["force_parse"] = True
    spec = Specfile(
        path,
        sourcedir=req["sourcedir"],
        macros=[tuple(m) for m in req.get("macros") or []],
        **kw,
    )
    put(req["text"])
    spec.reload()
    if req.get("disk") is not None:
        put(req["disk"])
    spec.autosave = bool(req.get("autosave"))
    result = {"ok": True, "results": []}
    for op in req["ops"]:
        one = {"exc": None, "value": None}
        try:
            one["value"] = ops.apply(spec, op)
        except Exception as e:
            one["exc"] = type(e).__name__
        one["text"] = str(spec)
        with open(path, "rb") as f:
            one["disk"] = f.read().decode("utf8", "surrogateescape")
        result["results"].append(one)
    return json.loads(json.dumps(result).replace(json.dumps(path)[1:-1], "@SPEC@"))


MINIMAL = "Name: t\nVersion: 1\nRelease: 1\nSummary: s\nLicense: x\n\n%description\nd\n"


# how RPM recognises archives, by what it finds at the start of the file
MAGIC = {
    ".bz2": b"BZh",
    ".zip": b"PK\x03\x04",
    ".xz": b"\xfd7zXZ\x00",
    ".zst": b"\x28\xb5\x2f\xfd",
    ".lz": b"LZIP",
    ".lrz": b"LRZI",
    ".gz": b"\x1f\x8b\x08",
    ".7z": b"7z\xbc\xaf\x27\x1c",
}


def fake_source(name):
    for ext, magic in MAGIC.items():
        if name.endswith(ext):
            return magic + b"\x00" * 32
    return b"\x00" * 32


def _materialise(rpm, path, sourcedir):
    """Makes all sources of the spec present, as files of the type their names suggest."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            spec = rpm.spec(path, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE)
            names = [os.path.basename(n) for n, _, _ in spec.sources]
        except BaseException:
            names = []
        os.write(w, json.dumps(names).encode("ascii"))
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    created = []
    for name in json.loads(data):
        p = os.path.join(sourcedir, name)
        if not os.path.exists(p):
            with open(p, "wb") as f:
                f.write(fake_source(name))
            created.append(p)
    return created


def _evaluate(rpm, req, path, stderr):
    flags = rpm.RPMSPEC_ANYARCH
    if req.get("nobuild"):
        flags |= rpm.RPMSPEC_FORCE
    try:
        spec = rpm.spec(path, flags)
    except ValueError as e:
        return {"ok": False, "error": str(e), "stderr": stderr()}
    result = {"ok": True, "expand": []}
    for expression in req.get("expand") or []:
        try:
            result["expand"].append(rpm.expandMacro(expression))
        except rpm.error as e:
            result["expand"].append({"error": str(e)})
    for what in req.get("want") or []:
        if what == "parsed":
            result["parsed"] = spec.parsed
        elif what == "sources":
            # flag 1 = source, 2 = patch
            result["sources"] = sorted(
                [os.path.basename(name), num, flag & 3] for name, num, flag in spec.sources
            )
        elif what == "filenames":
            # the names RPM expects in the source directory
            out = []
            for _, num, flag in spec.sources:
                macro = "%{SOURCE" if flag & 1 else "%{PATCH"
                path = rpm.expandMacro(f"{macro}{num}}}")
                out.append([path[len(req["sourcedir"]) + 1 :], num, flag & 3])
            result["filenames"] = sorted(out)
        elif what == "fullsources":
            result["fullsources"] = [[n, num, flag] for n, num, flag in spec.sources]
        elif what == "scripts":
            result["scripts"] = {
                k: getattr(spec, k) for k in ("prep", "build", "install", "check", "clean")
            }
        elif what == "header":
            h = spec.sourceHeader
            result["header"] = {
                k: h[k]
                for k in ("name", "version", "release", "summary", "url", "license")
            }
            result["header"]["epoch"] = h["epoch"]
        elif what == "changelog":
            h = spec.sourceHeader
            result["changelog"] = {
                k: list(h["changelog" + k]) for k in ("time", "name", "text")
            }
        elif what == "packages":
            result["packages"] = [
                [p.header["name"], p.header["version"], p.header["release"], p.header["summary"]]
                for p in spec.packages
            ]
        elif what == "stderr":
            result["stderr"] = stderr()
    return result


def _undefine(rpm, name):
    for _ in range(20):
        rpm.delMacro(name)
        try:
            if rpm.expandMacro("%{?" + name + ":1}") != "1":
                break
        except rpm.error:
            continue


def _serve(sock):
    import signal

    import rpm  # noqa: F401

    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        req = _recv(sock)
        if req is None:
            os._exit(0)
        if req.get("op") == "vercmp":
            _send(sock, {"ok": True, "cmp": rpm.labelCompare(tuple(req["a"]), tuple(req["b"]))})
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = _twin(req) if req.get("op") == "twin" else _answer(req)
            except BaseException as e:  # reported as a harness error by the asker
                res = {"ok": None, "harness": f"{type(e).__name__}: {e}"}
            data = json.dumps(res).encode("ascii")
            while data:
                data = data[os.write(w, data) :]
            os._exit(0)
        os.close(w)
        chunks = []
        while True:
            d = os.read(r, 1 << 20)
            if not d:
                break
            chunks.append(d)
        os.close(r)
        os.waitpid(pid, 0)
        raw = b"".join(chunks)
        _send(sock, json.loads(raw) if raw else {"ok": None, "harness": "reference died"})


class RefError(Exception):
    pass


class Ref:
    """Client side; create it before any RPM call is made in the process."""

    def __init__(self, scratch):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                _serve(b)
            finally:
                os._exit(1)
        b.close()
        self.sock = a
        self.pid = pid
        self.scratch = scratch
        self.cache = {}
        self.asked = 0

    def ask(self, text, sourcedir, macros=None, expand=(), want=(), key=None, **kw):
        """`key` identifies the state of the source directory, for caching."""
        from sim.kernel import K

        req = {
            "text": text,
            "sourcedir": str(sourcedir),
            "macros": macros or [],
            "expand": list(expand),
            "want": list(want),
            "scratch": self.scratch,
        }
        req.update(kw)
        ck = None
        if key is not None:
            ck = json.dumps([req, key], sort_keys=True)
            if ck in self.cache:
                return self.cache[ck]
        K.inside += 1
        try:
            self.asked += 1
            _send(self.sock, req)
            res = _recv(self.sock)
        finally:
            K.inside -= 1
        if res is None or res.get("ok") is None:
            raise RefError(str(res))
        if ck is not None:
            self.cache[ck] = res
        return res

    def twin(self, text, ops, sourcedir, **kw):
        from sim.kernel import K

        req = {"op": "twin", "text": text, "ops": ops, "sourcedir": str(sourcedir)}
        req["scratch"] = self.scratch
        req.update(kw)
        K.inside += 1
        try:
            self.asked += 1
            _send(self.sock, req)
            res = _recv(self.sock)
        finally:
            K.inside -= 1
        if res is None or res.get("ok") is None:
            raise RefError(str(res))
        return res["results"]

    def vercmp(self, a, b):
        _send(self.sock, {"op": "vercmp", "a": list(a), "b": list(b)})
        return _recv(self.sock)["cmp"]

    def close(self):
        self.sock.close()
        os.waitpid(self.pid, 0)
