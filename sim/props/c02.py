"""C02: parsing leaves the source directory exactly as it was."""

import os

from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation, diff_snapshots, snapshot

NEEDS_REF = False

SOURCE_POOL = [
    "a.tar.gz",
    "b.tar.xz",
    "c.zip",
    "d.tar.bz2",
    "e.txt",
    "f.conf",
    "g.7z",
    "h.tar.zst",
    "https://example.org/dl/i.tgz",
    "https://example.org/get?x=1#/j.tar.gz",
    "%{name}-%{version}.tar.gz",
    "k k.txt",
    "%{url}/l.lz",
]
PATCH_POOL = ["p1.patch", "p2.patch.gz", "https://example.org/p3.patch", "p4.diff"]

ANY_TEXT = True


def spec_text(rng):
    broken = rng.random() < 0.3
    lines = ["Name: t", "Version: 1.0", "Release: 1", "Summary: s", "License: x"]
    if rng.random() < 0.5:
        lines.append("URL: https://example.org")
    srcs = rng.sample(SOURCE_POOL, rng.randrange(0, 6))
    srcs = [s for s in srcs if "%{url}" not in s or any("URL:" in x for x in lines)]
    if rng.random() < 0.08:
        srcs.insert(rng.randrange(len(srcs) + 1), "x" * 300 + ".txt")
    pats = rng.sample(PATCH_POOL, rng.randrange(0, 4))
    in_list = rng.random() < 0.2
    for i, s in enumerate(srcs):
        if not in_list:
            lines.append(f"Source{i}: {s}")
    for i, p in enumerate(pats):
        lines.append(f"Patch{i}: {p}")
    r = rng.random() if broken else 1
    if r < 0.25:
        lines.append("%include %{_sourcedir}/inc.inc")
    elif r < 0.45:
        lines.append("%{load:%{_sourcedir}/mac.inc}")
    elif r < 0.7 and srcs and not in_list:
        lines.append("URL: %(cat %{SOURCE0} 2>/dev/null || :)")
    elif r < 0.85:
        lines.append("%if 1")
    elif r < 1:
        lines.append("Bogus line here")
    lines += ["", "%description", "d", ""]
    if in_list:
        lines += ["%sourcelist"] + srcs + [""]
    lines.append("%prep")
    if srcs:
        lines.append("%setup -q")
    for i in range(len(pats)):
        lines.append(f"%patch{i} -p1")
    lines += ["", "%changelog", "* Mon Jan 01 2024 A B <a@b> - 1.0-1", "- x"]
    return "\n".join(lines) + "\n"


NAMES = [
    "a.tar.gz",
    "b.tar.xz",
    "c.zip",
    "d.tar.bz2",
    "e.txt",
    "f.conf",
    "g.7z",
    "i.tgz",
    "j.tar.gz",
    "t-1.0.tar.gz",
    "p1.patch",
    "p2.patch.gz",
    "p3.patch",
    "inc.inc",
    "mac.inc",
    "unrelated.txt",
]


def gen(rng, tier):
    specs = [spec_text(rng) for _ in range(rng.choice([1, 1, 2]))]
    entries = []
    for name in rng.sample(NAMES, rng.randrange(0, 8)):
        entries.append(
            [name, rng.choice(["file", "file", "file", "empty", "dir", "link", "dangling"])]
        )
    faulty = rng.random() < 0.8
    kinds = rng.sample(
        ["ENOSPC", "EDQUOT", "EIO", "EACCES", "EROFS", "EMFILE", "SHORT", "TORN", "KINT", "MEM"],
        rng.randrange(1, 6),
    )
    ext = rng.random() < 0.5
    ops = []
    n = rng.randrange(2, 8)
    for i in range(n):
        r = rng.random()
        c = rng.randrange(len(specs))
        if i == 0 or r < 0.3:
            op = {"op": "new", "c": c, "force": rng.random() < 0.5}
        elif r < 0.5:
            op = {"op": "expand", "c": c, "extra": rng.choice([None, None, "1", "2"])}
        elif r < 0.6:
            op = {"op": "rpm_spec", "c": c}
        elif r < 0.7:
            op = {"op": "addsrc", "c": c, "name": rng.choice(SOURCE_POOL[:8] + PATCH_POOL)}
        elif r < 0.78:
            op = {"op": "break", "c": c, "line": rng.choice(["%if 1", "%endif", "Junk!"])}
        elif r < 0.84:
            op = {"op": "tags", "c": c}
        elif r < 0.9:
            op = {"op": "force", "c": c, "v": rng.random() < 0.7}
        else:
            op = {"op": "fs", "name": rng.choice(NAMES), "what": rng.choice(["rm", "file", "dir"])}
        quiet = op["op"] in ("fs", "force", "break") or i == 0 and rng.random() < 0.5
        if faulty and not quiet:
            op["faults"] = pick_faults(rng, kinds, ["src", "src", "src", "tmp"], 0.7, 14)
            if rng.random() < 0.3:
                # trouble while clearing up
                op["faults"].append(
                    {
                        "kind": rng.choice(["EACCES", "EROFS"]),
                        "call": "unlink",
                        "cat": "src",
                        "k": rng.randrange(0, 3),
                    }
                )
        if ext and not quiet:
            op.setdefault("faults", [])
            for _ in range(rng.randrange(0, 3)):
                f = {
                    "kind": "EXT",
                    "what": rng.choice(["file", "file", "rm", "dir", "rmstandin"]),
                    "name": rng.choice(NAMES),
                    "k": rng.randrange(0, 10),
                }
                r = rng.random()
                if r < 0.5:
                    f.update(call="openw", cat="src", what="file", k=rng.randrange(0, 5))
                    f["aim"] = True
                elif r < 0.75:
                    f.update(call="rpm", path="spec", k=rng.choice([0, 1]))
                    f["what"] = rng.choice(["rmstandin", "rmstandin", "file", "rm"])
                op["faults"].append(f)
        ops.append(op)
    return {"config": {"specs": specs, "entries": entries}, "ops": ops}


class Dir:
    """Owner of every path of the source directory."""

    def __init__(self, w):
        self.w = w
        self.top = w.path("src")
        self.standins = set()
        self.expected = {}
        self.serial = 0

    def make(self, name, what):
        p = os.path.join(self.top, name)
        if os.path.lexists(p):
            return False
        self.serial += 1
        data = f"precious {self.serial}\n".encode()
        if what == "file":
            self.w.write("src/" + name, data)
        elif what == "empty":
            self.w.write("src/" + name, b"")
        elif what == "dir":
            os.mkdir(p)
            self.w.write(f"src/{name}/inside", data)
        elif what == "link":
            self.w.write(f"target-{name}", data)
            os.symlink(os.path.join(self.w.root, f"target-{name}"), p)
        elif what == "dangling":
            os.symlink(os.path.join(self.w.root, "nowhere", name), p)
        if what in ("file", "empty"):
            os.utime(p, (1e9 + self.serial, 1e9 + self.serial))
        return True

    def remove(self, name):
        p = os.path.join(self.top, name)
        if not os.path.lexists(p):
            return False
        if os.path.isdir(p) and not os.path.islink(p):
            import shutil

            shutil.rmtree(p)
        else:
            os.unlink(p)
        return True

    def snap(self):
        s = snapshot(self.top)
        for name, entry in list(s.items()):
            if entry[0] == "file":
                st = os.stat(os.path.join(self.top, name))
                s[name] = entry + (st.st_mtime_ns,)
        return s


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]
    d = Dir(w)
    os.mkdir(w.path("nowhere"))
    for name, what in cfg["entries"]:
        d.make(name, what)
    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)
    specs = {}
    K.classify_path = lambda p: (
        "src"
        if isinstance(p, str) and p.startswith(d.top + "/")
        else "tmp"
        if isinstance(p, str) and p.startswith(w.path("tmp"))
        else "spec"
        if isinstance(p, str) and p.endswith(".spec")
        else "other"
    )
    state = {"expected": None}

    def observer(when, ev):
        if ev.cat != "src" or when != "before":
            return
        rel = os.path.relpath(ev.path, d.top)
        if ev.call == "openw" and rel in state["expected"]:
            # opening it with O_EXCL or over a directory fails and touches nothing
            entry = state["expected"][rel]
            if entry[0] == "file" and not ev.flags & os.O_EXCL:
                K.fail("overwrite", f"{rel} is opened for writing but is not a stand-in")
        elif ev.call == "unlink" and rel in state["expected"]:
            if state["expected"][rel][0] != "dir":
                K.fail("removal", f"{rel} is removed but is not a stand-in")

    def ext(f):
        what = f["what"]
        name = f["name"]
        if f.get("aim") and K.current.cat == "src":
            # the name the library is about to use
            name = os.path.relpath(K.current.path, d.top)
        if what == "rmstandin":
            now = snapshot(d.top)
            extra = sorted(set(now) - set(state["expected"]))
            if not extra:
                return False
            os.unlink(os.path.join(d.top, extra[0]))
            w.probe("stand-in removed by another process")
            return True
        if what == "rm":
            if name not in state["expected"]:
                return False
            d.remove(name)
            for k in list(state["expected"]):
                if k == name or k.startswith(name + "/"):
                    del state["expected"][k]
            return True
        before = set(d.snap())
        if not d.make(name, what):
            return False
        for k, v in d.snap().items():
            if k not in before:
                state["expected"][k] = v
        if f.get("aim"):
            w.probe("file appeared just before its stand-in")
        return True

    K.observers = [observer]
    K.ext_action = ext

    for op in trace["ops"]:
        kind = op["op"]
        if kind == "fs":
            if op["what"] == "rm":
                d.remove(op["name"])
            else:
                d.make(op["name"], op["what"])
            continue
        c = op["c"] % len(cfg["specs"]) if cfg["specs"] else None
        if c is None:
            return
        s = specs.get(c)
        if kind != "new" and s is None:
            continue
        if kind == "force":
            s.force_parse = op["v"]
            continue
        if kind == "break":
            with s.lines() as lines:
                lines.insert(1, op["line"])
            continue
        state["expected"] = d.snap()
        w.ops_done += 1

        def do():
            if kind == "new":
                return Specfile(
                    w.path(f"s{c}.spec"), sourcedir=w.path("src"), force_parse=op["force"]
                )
            if kind == "expand":
                extra = [("extra", op["extra"])] if op.get("extra") else None
                return s.expand("%{name}", extra_macros=extra)
            if kind == "rpm_spec":
                return s.rpm_spec and None
            if kind == "tags":
                with s.tags() as tags:
                    return [t.valid for t in tags]
            if kind == "addsrc":
                with s.sources() as sources:
                    sources.append(op["name"])
                return s.expand("%{version}")

        out = w.call(kind, do, op.get("faults"))
        if kind == "new" and out.ok:
            specs[c] = out.value
        now = d.snap()
        allowed = {os.path.relpath(p, d.top) for p in K.failed_unlinks}
        for name in sorted(set(now) - set(state["expected"])):
            if name in allowed:
                w.probe("stand-in whose removal failed")
                d.remove(name)
                continue
            raise Violation(
                "leftover",
                f"{kind} ({out.desc()}; faults {out.fired}) left {name} in the source directory",
            )
        for name, entry in state["expected"].items():
            if now.get(name) != entry:
                raise Violation(
                    "changed",
                    f"{kind} ({out.desc()}; faults {out.fired}) changed the source directory: "
                    + "; ".join(diff_snapshots({name: entry}, {name: now.get(name)})),
                )
        if os.listdir(w.path("nowhere")):
            raise Violation("changed", f"{kind} wrote through a dangling link")
        w.probe("op ok" if out.ok else "op failed")
