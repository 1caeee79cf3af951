"""C10: author detection keeps its precedence however the environment fails."""

import os

from sim import env
from sim.faults import pick_faults
from sim.kernel import K, REAL, is_simulated, make_oserror
from sim.props import c09
from sim.world import Violation

NEEDS_ENV = True
USER_VARS = ("LOGNAME", "USER", "LNAME", "USERNAME")


# -- generation ---------------------------------------------------------------------------------


def lookup(rng, value):
    """What git answers to one question."""
    r = rng.random()
    if r < 0.45:
        return {"out": value + rng.choice(["\n", "\n", "", " \n"])}
    if r < 0.65:
        return {"out": "", "rc": 1}
    if r < 0.72:
        return {"out": rng.choice(["\n", "", "  \n"])}
    if r < 0.79:
        return {"out": "", "rc": 128, "err": "fatal: bad config line 1 in file .gitconfig\n"}
    if r < 0.84:
        return {"out": "", "rc": -11}
    if r < 0.92:
        # what the file holds need not be valid text
        return {"raw": "4a9f72"}
    return {"spawn": rng.choice(["EMFILE", "ENOMEM", "EAGAIN", "EACCES", "ENOENT", "E2BIG"])}


def environment(rng):
    e = {"packager": rng.choice([None, None, None, None, "", "Env P <e@p>", "Žofie"])}
    e["git"] = rng.choice(["yes"] * 6 + ["no", "no", "noexec", "dir"])
    e["email"] = lookup(rng, rng.choice(["g@example.org", "a.b@c"]))
    e["name"] = lookup(rng, rng.choice(["Git Name", "Žo Git", "G"]))
    e["vars"] = {}
    for v in USER_VARS:
        if rng.random() < 0.25:
            e["vars"][v] = rng.choice(["alice", "bob", "stranger", ""])
    e["users"] = {}
    for u in ("alice", "bob"):
        if rng.random() < 0.7:
            e["users"][u] = rng.choice(["", "Full " + u, "Žo " + u])
    e["self"] = rng.choice([None, "alice", "bob", "alice"])
    e["path"] = rng.choice(["bin", "bin", "bin", "two", None])
    return e


def document(rng, ident):
    lines = []
    p = rng.random()
    if p < 0.15:
        lines.append(f"%global packager Spec {ident} <s@p>")
    elif p < 0.2:
        lines.append(f"%define packager %{{name}} {ident}")
    elif p < 0.26:
        lines.append("%define packager %{error:boom}")
    elif p < 0.32:
        lines.append("%global packager %{nil}")
    elif p < 0.36:
        lines.append("%if 0\n%global packager Nobody\n%endif")
    lines += [
        f"Name: doc{ident}", "Version: 1.0", "Release: 1%{?dist}", "Summary: s", "License: MIT", "",
        "%description", "text", "",
    ]
    kind = rng.choice(["one", "one", "one", "two", "empty", "auto", "none"])
    if kind == "two":
        lines += ["%if 0", "%changelog", "* Tue Mar 14 1995 A <b@c> - 0-1", "- x", "", "%else"]
        lines += ["%changelog", "* Tue Mar 14 1995 A <b@c> - 0-1", "- x", "", "%endif"]
    elif kind != "none":
        lines += ["%changelog"]
        if kind == "one":
            lines += ["* Tue Mar 14 1995 A <b@c> - 0-1", "- x"]
        elif kind == "auto":
            lines += ["%autochangelog"]
    return "\n".join(lines) + "\n"


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    cfg = {"docs": [document(rng, chr(97 + i)) for i in range(n)], "env": environment(rng)}
    ops = []
    for i in range(rng.randrange(2, 9 if tier == "quick" else 16)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.4:
            op = {"op": "env", "c": c, "env": environment(rng)}
            if rng.random() < 0.5:
                # most of it stays
                keep = rng.sample(sorted(op["env"]), 5)
                for k in keep:
                    op["env"].pop(k)
        elif r < 0.6:
            op = {"op": "guess", "c": c, "macro": rng.choice([None, None, None, "Mac Ro <m@r>", ""])}
        else:
            op = {"op": "add", "c": c, "day": i + 1}
            if rng.random() < 0.1:
                op["author"] = "Given"
        if op["op"] != "env":
            op["faults"] = pick_faults(rng, ["KINT", "MEM", "EIO", "EMFILE", "ENOSPC"], ["tmp", "other"], 0.08)
            if rng.random() < 0.2:
                op["faults"].append(
                    {"kind": "EXT", "call": "proc", "k": rng.choice([0, 0, 1, 2]), "what": rng.choice(["vanish", "appear"])}
                )
            elif rng.random() < 0.15:
                # interrupted while waiting for another program
                op["faults"].append({"kind": rng.choice(["KINT", "MEM"]), "call": "proc", "k": rng.choice([0, 1, 2])})
        ops.append(op)
    return {"config": cfg, "ops": ops}


# -- the environment ----------------------------------------------------------------------------


class Machine:
    def __init__(self, w, e):
        self.w = w
        self.e = dict(e)
        self.outs = []
        for d in ("bin", "bin2"):
            os.mkdir(w.path(d))
        self.apply()

    def change(self, e):
        self.e.update(e)
        self.apply()

    def git_path(self):
        return self.w.path("bin", "git")

    def clear(self):
        p = self.git_path()
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.lexists(p):
            os.unlink(p)

    def apply(self):
        e, w = self.e, self.w
        K.inside += 1
        try:
            self.clear()
            if e["git"] in ("yes", "noexec"):
                with REAL["io.open"](self.git_path(), "wb") as f:
                    f.write(b"#!/bin/false\n")
                os.chmod(self.git_path(), 0o755 if e["git"] == "yes" else 0o644)
            elif e["git"] == "dir":
                os.mkdir(self.git_path())
        finally:
            K.inside -= 1
        for v in USER_VARS:
            os.environ.pop(v, None)
        os.environ.update(e["vars"])
        os.environ.pop("RPM_PACKAGER", None)
        if e["packager"] is not None:
            os.environ["RPM_PACKAGER"] = e["packager"]
        os.environ.pop("PATH", None)
        if e["path"] is not None:
            os.environ["PATH"] = w.path("bin") if e["path"] == "bin" else w.path("bin2") + ":" + w.path("bin")
        uid = os.getuid()
        users = {}
        for i, (u, gecos) in enumerate(sorted(e["users"].items())):
            users[u] = (uid if u == e["self"] else uid + 100 + i, gecos)
        env.ACCOUNTS.users = users
        env.ACCOUNTS.armed = True

    def ext(self, f):
        """Another process installs or removes git."""
        if f["what"] == "vanish" and os.path.isfile(self.git_path()):
            self.clear()
            self.w.probe("git vanished during detection")
            return True
        if f["what"] == "appear" and not os.path.lexists(self.git_path()):
            with REAL["io.open"](self.git_path(), "wb") as out:
                out.write(b"#!/bin/false\n")
            os.chmod(self.git_path(), 0o755)
            return True
        return False

    def program(self, argv, cwd, environ):
        name = argv[0]
        if os.sep in name:
            found = [name]
        else:
            found = [os.path.join(d, name) for d in environ.get("PATH", os.defpath).split(":")]
        K.inside += 1
        try:
            found = [p for p in found if p.startswith(self.w.root) and os.path.lexists(p)]
            if not found:
                return None
            if os.path.isdir(found[0]) or not os.stat(found[0]).st_mode & 0o111:
                return make_oserror("EACCES", name)
        finally:
            K.inside -= 1
        for what in ("email", "name"):
            if "user." + what in argv:
                a = self.e[what]
                if a.get("spawn"):
                    return make_oserror(a["spawn"], name)
                self.outs.append((what, a))
                data = bytes.fromhex(a["raw"]) if "raw" in a else a["out"].encode("utf8")
                return a.get("rc", 0), data, a.get("err", "").encode()
        return 129, b"", b"usage: git\n"

    # -- expectations ---------------------------------------------------------------------------
    def git_works(self):
        return self.e["git"] == "yes" and self.e["path"] is not None

    def git_value(self, what):
        a = self.e[what]
        if a.get("spawn") or "raw" in a or a.get("rc"):
            return ""
        return a["out"].strip()

    def account(self):
        user = ""
        for v in USER_VARS:
            if self.e["vars"].get(v):
                user = self.e["vars"][v]
                break
        else:
            if self.e["self"] in self.e["users"]:
                user = self.e["self"]
        return self.e["users"].get(user) or user

    def expected(self, macro, vanish):
        """The set of acceptable answers."""
        if self.e["packager"]:
            return {self.e["packager"]}
        if macro:
            return {macro}
        out = set()
        # a program that comes or goes in the meantime may or may not have answered
        ways = [self.git_works()] if not vanish else [True, False, "email", "name"]
        for way in ways:
            email = self.git_value("email") if way in (True, "email") and self.e["path"] else ""
            name = self.git_value("name") if way in (True, "name") and self.e["path"] else ""
            name = name or self.account()
            out.add(f"{name} <{email}>" if name and email else email or name)
        return out


# -- the run ------------------------------------------------------------------------------------


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]

    def classify(p):
        return "tmp" if isinstance(p, str) and p.startswith(w.path("tmp")) else "other"

    K.classify_path = classify
    m = Machine(w, cfg["env"])
    env.PROGRAMS.handler = m.program
    K.ext_action = m.ext
    clients = {}
    for c, text in enumerate(cfg["docs"]):
        w.write(f"s{c}.spec", text)
        spec = w.call("new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"))).value
        if spec is None:
            w.probe("document refused")
            continue
        clients[c] = spec
    for op in trace["ops"]:
        if op["op"] == "env":
            m.change(op["env"])
            continue
        if op["c"] not in clients:
            continue
        w.ops_done += 1
        spec = clients[op["c"]]
        m.apply()
        if op["op"] == "guess":
            guess(w, m, spec, op)
        else:
            add(w, m, spec, op)


def macro_of(w, text):
    """The packager according to RPM, once it has parsed the document."""
    ref = w.ref.ask(text, w.path("src"), macros=[], expand=["%packager"], key=0)
    if not ref["ok"]:
        return None
    value = ref["expand"][0]
    if isinstance(value, dict) or value == "%packager":
        return ""
    return value


def tolerable(w, out):
    """Whether the failure is the interruption or the exhaustion that was injected."""
    kinds = {k for k, call, path in out.fired if k != "EXT"}
    if not kinds:
        return False
    if kinds & {"KINT", "MEM"}:
        return is_simulated(out.exc) or bool(kinds - {"KINT", "MEM"})
    return True


def guess(w, m, spec, op):
    from specfile.changelog import guess_packager
    from specfile.macros import Macros

    w.must("expand", lambda: spec.expand("x"))
    macro = macro_of(w, str(spec))
    if "packager" in str(spec):
        # the application would take away what the document defines
        op = dict(op, macro=None)
    if op["macro"] is not None:
        w.must("define", lambda: Macros.define("packager", op["macro"]))
        macro = op["macro"]
    text = str(spec)
    out = w.call("guess", guess_packager, op.get("faults"))
    if op["macro"] is not None:
        w.must("remove", lambda: Macros.remove("packager"))
    if str(spec) != text:
        raise Violation("document", "detecting the author changed the document")
    if out.exc is not None:
        if not tolerable(w, out):
            raise Violation("unexpected-exception", f"author detection failed: {out.desc()}; {describe(m, macro)}")
        w.probe("interrupted detection")
        return
    vanish = any(f[0] == "EXT" for f in out.fired)
    good = m.expected(macro, vanish)
    if out.value not in good and not io_faults(out):
        raise Violation("author", f"detected {out.value!r} instead of {sorted(good)}; {describe(m, macro)}")
    w.probe("detected" if out.value else "nothing to detect")


def io_faults(out):
    """Failing file operations may hide any of the places that are searched."""
    return any(k not in ("EXT", "KINT", "MEM") for k, _, _ in out.fired)


def add(w, m, spec, op):
    from specfile.exceptions import SpecfileException

    text = str(spec)
    macro = macro_of(w, text)
    when = {"kind": "date", "t": 1000000000 + op["day"] * 86400 * 9}
    entry = ["- change"]
    stamp = c09.when_of({"when": when})
    out = w.call(
        "add",
        lambda: spec.add_changelog_entry(entry, author=op.get("author"), timestamp=stamp, evr="2-2"),
        op.get("faults"),
    )
    now = str(spec)
    vanish = any(f[0] == "EXT" for f in out.fired)
    good = m.expected(macro, vanish) if "author" not in op else {op["author"]}
    if out.exc is not None:
        if now != text:
            raise Violation("half", f"a failed addition left {c09.diff(text, now)}")
        if tolerable(w, out):
            w.probe("interrupted detection")
            return
        if isinstance(out.exc, SpecfileException) and "" in good and c09.live(text):
            w.probe("nothing to detect")
            return
        raise Violation("unexpected-exception", f"adding an entry failed: {out.desc()}; {describe(m, macro)}")
    if not c09.live(text):
        if now != text:
            raise Violation("not-a-target", c09.diff(text, now))
        return
    if io_faults(out):
        return
    why = []
    for author in sorted(good - {""}):
        e = c09.explain(text, {"when": when}, None, f"{author} - 2-2", entry, now)
        if e is None:
            w.probe("entries added")
            return
        why.append(e)
    raise Violation("entry", f"{why or 'an entry was added though there is no author'}; {describe(m, macro)}")


def describe(m, macro):
    e = m.e
    return (
        f"RPM_PACKAGER={e['packager']!r} macro={macro!r} git={e['git']} PATH={e['path']} email={e['email']} "
        f"name={e['name']} vars={e['vars']} users={e['users']} self={e['self']}"
    )
