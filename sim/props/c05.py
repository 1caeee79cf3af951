"""C05: process-wide state is left as it was found."""

import ctypes
import os
import resource
import sys

from sim import ops as catalogue
from sim.faults import pick_faults
from sim.kernel import K, REAL
from sim.specgen import gen_spec
from sim.world import Violation

NEEDS_REF = False

# what breaks the document, and what RPM says about it
BREAKS = [
    ["%{error:DIAG-one}", "DIAG-one"],
    ["%{error:DIAG two error: tail}", "DIAG two error: tail"],
    ["Bogus DIAG-three", "DIAG-three"],
    ["%if 4711", "%if"],
    ["%{expr:1 +}", "end of expression"],
    ["%include /nonexistent/DIAG-four", "DIAG-four"],
]
BAD_EXPRS = [
    ["%{error:DIAG-five}", "DIAG-five"],
    ["%{error:}", ""],
    ["%{error:DIAG-six error: more}", "DIAG-six error: more"],
    ["%{lua:error('DIAG-seven')}", "DIAG-seven"],
    ["%{expr:1/0}", "zero"],
]
NOISE = [
    "# %{foo} in a comment",
    "%{warn:NOISE-warn}",
    "%{!?quiet:%{warn:NOISE-cond}}",
    "%global noise %(echo NOISE-shell >&2)",
    "%{lua:io.stderr:write('NOISE-lua')}",
    "%define unused_local x",
    "%global n2 %(exit 3; echo NOISE)",
]
RPMMACROS = ["%good 1\n", "%empty\n", "%bad{ x\n", "%foo(\n", "%ok 2\n%un %{abc\n", ""]

ANY_TEXT = True


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    specs = []
    for i in range(n):
        lines = gen_spec(rng, "ab"[i]).split("\n")
        for x in rng.sample(NOISE, rng.randrange(0, 4)):
            lines.insert(4, x)
        text = "\n".join(lines)
        if rng.random() < 0.3:
            text = text.replace("* Mon May 06", "* Sun May 06")
        specs.append(text)
    env = {}
    for k in ("LANG", "LC_ALL", "LC_MESSAGES", "LANGUAGE"):
        v = rng.choice([None, "", "C", "C.UTF-8", "cs_CZ.UTF-8", "xx_nonsense"])
        if v is not None:
            env[k] = v
    kinds = rng.sample(
        ["KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "EMFILE", "EACCES", "TORN", "SHORT"], 4
    )
    rate = rng.choice([0, 0.4, 0.7])
    ops = [{"op": "new", "c": c} for c in range(n)]
    broken = rng.random() < 0.5
    for _ in range(rng.randrange(3, 11)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.08:
            op = {"op": "new", "c": c}
        elif r < 0.2 and broken:
            op = {"op": "break", "c": c, "line": rng.choice(BREAKS)}
        elif r < 0.25:
            op = {"op": "redirect"}
        elif r < 0.3:
            op = {"op": "setenv", "k": rng.choice(["LANG", "LC_ALL", "X"])}
            op["v"] = rng.choice([None, "C", "de_DE", ""])
        elif r < 0.34:
            op = {"op": "umask", "v": rng.choice([0o022, 0o077, 0])}
        elif r < 0.42:
            op = {"op": "badexpr", "c": c, "expr": rng.choice(BAD_EXPRS)}
        elif r < 0.62:
            op = {"op": "do", "c": c, "do": catalogue.gen_write(rng)}
        else:
            op = {"op": "do", "c": c, "do": catalogue.gen_read(rng)}
        op["say"] = rng.choice(["", "", "line", "partial", "raw"])
        if op["op"] in ("new", "do", "badexpr") and rate:
            if rng.random() < 0.2:
                op["nofile"] = rng.randrange(0, 9)
            else:
                op["faults"] = pick_faults(rng, kinds, ["tmp", "tmp", "src", "spec"], rate, 14)
        ops.append(op)
    return {
        "config": {
            "specs": specs,
            "env": env,
            "autosave": rng.random() < 0.3,
            "rpmmacros": rng.choice(RPMMACROS),
        },
        "ops": ops,
    }


LIBC = ctypes.CDLL(None)
LIBC.getenv.restype = ctypes.c_char_p


def open_fds():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            st = os.fstat(int(fd))
            out[int(fd)] = (st.st_dev, st.st_ino)
        except OSError:
            pass  # the directory itself
    return out


def children():
    with REAL["io.open"](f"/proc/self/task/{os.getpid()}/children") as f:
        return f.read().split()


class State:
    def __init__(self, w):
        K.inside += 1
        try:
            self.fds = open_fds()
            self.env = dict(os.environ)
            self.cenv = {
                k: LIBC.getenv(k.encode())
                for k in ("LANG", "LC_ALL", "LC_MESSAGES", "LANGUAGE", "X", "PATH", "HOME")
            }
            self.cwd = os.getcwd()
            self.umask = os.umask(0)
            os.umask(self.umask)
            self.tmp = sorted(os.listdir(w.path("tmp")))
            self.children = children()
            self.stderr = (sys.stderr, sys.__stderr__, sys.stdout)
        finally:
            K.inside -= 1

    def check(self, w, what):
        now = State(w)

        def bad(kind, message):
            raise Violation(kind, f"after {what}: {message}")

        if now.fds.get(2) != self.fds.get(2):
            bad("stderr", "standard error is another file now")
        if now.fds != self.fds:
            new = {k: v for k, v in now.fds.items() if self.fds.get(k) != v}
            gone = [k for k in self.fds if k not in now.fds]
            bad("descriptors", f"left open: {len(new)}, closed: {gone}")
        for name in ("env", "cenv", "cwd", "umask", "children"):
            a, b = getattr(self, name), getattr(now, name)
            if a != b:
                if isinstance(a, dict):
                    a, b = (
                        {k: v for k, v in x.items() if a.get(k) != b.get(k)} for x in (a, b)
                    )
                bad(name, f"{name} was {a!r}, is {b!r}")
        if now.stderr != self.stderr:
            bad("sys-streams", "a standard stream object was replaced")
        allowed = {os.path.basename(p) for p in K.failed_unlinks}
        left = [x for x in now.tmp if x not in self.tmp and x not in allowed]
        if left:
            bad("temporary-files", f"left behind: {left}")


def parses_without(spec, lines):
    """Whether nothing else is wrong with the document."""
    import copy

    other = copy.deepcopy(spec)
    other.autosave = False
    with other.lines() as text:
        text[:] = [x for x in text if x not in lines]
    try:
        other.rpm_spec
    except Exception:
        return False
    return True


def run(w, trace):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    cfg = trace["config"]
    for k in ("LANG", "LC_ALL"):
        os.environ.pop(k, None)
    os.environ.update(cfg["env"])
    os.mkdir(w.path("home"))
    os.environ["HOME"] = w.path("home")
    if cfg["rpmmacros"]:
        w.write("home/.rpmmacros", cfg["rpmmacros"])
    specs = {}
    broken = {}
    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
            if p.endswith(".spec"):
                return "spec"
        return "other"

    K.classify_path = classify
    log = "stderr.log"
    expected = b""
    serial = 0

    def say(text, raw=False):
        nonlocal expected
        expected += text.encode()
        if raw:
            sys.stderr.flush()
            os.write(2, text.encode())
        else:
            sys.stderr.write(text)

    def heard(what):
        sys.stderr.flush()
        got = w.read(log)
        if got != expected:
            n = len(os.path.commonprefix([got, expected]))
            raise Violation(
                "stderr-content",
                f"after {what}: standard error got {got[n:n + 300]!r} "
                f"instead of {expected[n:n + 300]!r}",
            )

    for op in trace["ops"]:
        kind = op["op"]
        serial += 1
        if kind == "redirect":
            # the application gives its process another standard error
            heard("redirect")
            log = f"stderr{serial}.log"
            expected = b""
            fd = os.open(w.path(log), os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
            os.dup2(fd, 2)
            os.close(fd)
            continue
        if kind == "setenv":
            if op["v"] is None:
                os.environ.pop(op["k"], None)
            else:
                os.environ[op["k"]] = op["v"]
            continue
        if kind == "umask":
            os.umask(op["v"])
            continue
        c = op["c"]
        if c >= len(cfg["specs"]) or kind != "new" and c not in specs:
            continue
        if kind == "break":
            line, diag = op["line"]
            with specs[c].lines() as lines:
                if line in lines:
                    lines.remove(line)
                else:
                    lines.insert(1, line)
            broken.setdefault(c, set()).symmetric_difference_update({line})
            continue
        w.ops_done += 1
        if kind == "new":
            what = "new"

            def do():
                return Specfile(
                    w.path(f"s{c}.spec"), sourcedir=w.path("src"), autosave=cfg["autosave"]
                )

        elif kind == "badexpr":
            spec = specs[c]
            what = f"expand {op['expr'][0]}"

            def do():
                return spec.expand(op["expr"][0])

        else:
            spec = specs[c]
            what = str(op["do"])

            def do():
                return catalogue.apply(spec, op["do"])

        if op.get("say") == "line":
            say(f"before {serial}\n")
        elif op.get("say") == "partial":
            say(f"before {serial} ...")
        elif op.get("say") == "raw":
            say(f"raw {serial}\n", raw=True)
        before = State(w)
        limit = resource.getrlimit(resource.RLIMIT_NOFILE)
        if "nofile" in op:
            # the descriptor table is nearly full, for librpm as well
            top = max(before.fds) + 1 + op["nofile"]
            resource.setrlimit(resource.RLIMIT_NOFILE, (top, limit[1]))
        out = w.call(kind, do, op.get("faults"))
        resource.setrlimit(resource.RLIMIT_NOFILE, limit)
        exc = out.exc
        what += f" ({out.desc()}, {[f[:2] for f in out.fired]})"
        fired = out.fired or "nofile" in op
        if "nofile" in op and exc is not None:
            w.probe("failed with a full descriptor table")
        if kind == "new":
            if out.ok:
                specs[c] = out.value
                broken[c] = {x[0] for x in BREAKS if x[0] in str(out.value).split("\n")}
            else:
                specs.pop(c, None)
        out = None
        before.check(w, what)
        say(f"after {serial}\n", raw=serial % 2 == 0)
        heard(what)
        if isinstance(exc, RPMException) and not fired and kind != "new":
            w.probe("diagnostics carried")
            try:
                message = str(exc)
            except Exception as e:
                raise Violation("diagnostics", f"{what}: str() of the exception raises {e!r}")
            text = b"".join(exc.stderr).decode("utf8", "surrogateescape")
            lines = broken.get(c) or set()
            wanted = [d for x, d in BREAKS if x in lines]
            if not wanted and kind == "badexpr":
                wanted = [op["expr"][1]]
            if not text.strip():
                raise Violation("diagnostics", f"{what}: the exception carries nothing")
            if (
                wanted
                and not any(d in message and d in text for d in wanted)
                and parses_without(spec, lines)
            ):
                raise Violation(
                    "diagnostics",
                    f"{what}: none of {wanted} in the exception: {message!r} {text[:500]!r}",
                )
