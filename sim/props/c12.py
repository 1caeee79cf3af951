"""C12: absent sources never change what a spec evaluates to."""

import copy
import os
import re

from sim.faults import pick_faults
from sim.kernel import K, is_simulated
from sim.world import Violation

# usual extensions and what files of that kind start with
KINDS = {
    ".tar.gz": b"\x1f\x8b\x08",
    ".tgz": b"\x1f\x8b\x08",
    ".tar.bz2": b"BZh9",
    ".tbz2": b"BZh9",
    ".tbz": b"BZh9",
    ".tar.xz": b"\xfd7zXZ\x00",
    ".txz": b"\xfd7zXZ\x00",
    ".tar.zst": b"\x28\xb5\x2f\xfd",
    ".tzst": b"\x28\xb5\x2f\xfd",
    ".zip": b"PK\x03\x04",
    ".7z": b"7z\xbc\xaf\x27\x1c",
    ".tar.lz": b"LZIP",
    ".tar.lrz": b"LRZI",
    ".tar": b"file\x00\x00\x00",
    ".txt": b"text of the file\n",
    ".conf": b"# conf\n",
    ".service": b"[Unit]\n",
}
PATCH_KINDS = {
    ".patch": b"diff --git a/x b/x\n",
    ".diff": b"--- a\n+++ b\n",
    ".patch.gz": b"\x1f\x8b\x08",
    ".patch.xz": b"\xfd7zXZ\x00",
    ".diff.bz2": b"BZh9",
    ".patch.zst": b"\x28\xb5\x2f\xfd",
    ".patch.lz": b"LZIP",
    ".diff.lrz": b"LRZI",
    ".patch.zip": b"PK\x03\x04",
    ".diff.7z": b"7z\xbc\xaf\x27\x1c",
}
EVERY = {**KINDS, **PATCH_KINDS}
TEXTUAL = {".txt", ".conf", ".service", ".patch", ".diff", None}
NEED = ["include", "load", "tag"]


def content(name):
    best = max((e for e in EVERY if name.endswith(e)), key=len, default=None)
    return (EVERY[best] if best else b"x\n") + b"\x00" * 40 * (best not in TEXTUAL)


# -- generation ---------------------------------------------------------------------------------


class Doc:
    def __init__(self, rng, ident, forced):
        r = rng
        self.needs = []
        lines = []
        if r.random() < 0.4:
            lines.append(f"%global flag {r.randrange(2)}")
        lines += [f"Name: pkg{ident}", f"Version: {r.randrange(1, 5)}.0", "Release: 1"]
        lines += ["Summary: s", "License: MIT", "URL: https://example.org/%{name}"]
        srcs, pats = [], []
        for i in range(r.choice([0, 1, 2, 3, 4])):
            ext = r.choice(list(KINDS))
            base = r.choice([f"s{i}{ident}", "%{name}-%{version}", f"odd name{i}", f"s{i}-%{{version}}"])
            where = r.choice(["", "", "https://example.org/dl/", "%{url}/get?f=1#/", "ftp://x.org/%{version}/"])
            if " " in base:
                where = ""
            if base == "%{name}-%{version}" and any(base in s for _, s in srcs):
                base = f"t{i}{ident}"
            srcs.append((i, where + base + ext))
        for i in range(r.choice([0, 0, 1, 2])):
            pats.append((i + r.choice([0, 0, 4]), f"p{i}{ident}" + r.choice(list(PATCH_KINDS))))
        in_list = r.random() < 0.15
        plist = r.random() < 0.1
        where = [("Source", s) for s in srcs if not in_list] + [("Patch", p) for p in pats if not plist]
        for word, (n, loc) in where:
            line = f"{word}{n}: {loc}"
            t = r.random()
            if t < 0.12:
                lines += ["%if 0%{?flag}", line, "%endif"]
            else:
                lines.append(line)
        lines.append("")
        tail = ["%description", "Text.", ""]
        if in_list and srcs:
            tail += ["%sourcelist"] + [s for _, s in srcs] + [""]
        if plist and pats:
            pats = [(i, p) for i, (_, p) in enumerate(pats)]
            tail += ["%patchlist"] + [p for _, p in pats] + [""]
        tail.append("%prep")
        have = [n for n, s in srcs if in_list or f"Source{n}: {s}" in self._top(lines)]
        hpat = [n for n, p in pats if plist or f"Patch{n}: {p}" in self._top(lines)]
        if have:
            t = r.random()
            opts = ""
            if t < 0.25 and 0 in have:
                tail.append("%autosetup" + r.choice(["", " -p1", " -N", " -n %{name}-x"]))
            elif t < 0.85:
                if r.random() < 0.4:
                    opts += f" -a {r.choice(have)}"
                if r.random() < 0.25:
                    opts += f" -b {r.choice(have)}"
                if r.random() < 0.2 or 0 not in have:
                    opts += " -T"
                if r.random() < 0.2:
                    opts += " -D"
                if r.random() < 0.2:
                    opts += " -c"
                tail.append("%setup -q" + opts)
            if r.random() < 0.35:
                tail.append(f"%{{uncompress:%{{SOURCE{r.choice(have)}}}}}")
            if r.random() < 0.3:
                tail.append(f"cp %{{SOURCE{r.choice(have)}}} %{{S:{r.choice(have)}}} .")
        if not any("autosetup" in x for x in tail):
            for n in hpat:
                t = r.random()
                if t < 0.5:
                    tail.append(f"%patch{n} -p1")
                elif t < 0.8:
                    tail.append(f"%patch -P {n}" + r.choice(["", " -b .orig"]))
        tail += ["", "%build", "echo %{sources}", "echo %{patches}", "", "%install", ""]
        tail += ["%changelog", "* Mon Jan 01 2024 A B <a@b.c> - 1.0-1", "- x"]
        if forced:
            for i in range(r.choice([1, 1, 2, 3])):
                self.need(r, ident, i, lines, tail)
        self.broken = forced and r.random() < 0.15
        if self.broken:
            # what no stand-in can help
            how = r.choice(["outside", "outside", "sub", "brace", "brace2", "eof", "tag"])
            if how == "outside":
                lines.append(r.choice(["%include /nonexistent/dir/m.inc", "%{load:/nonexistent/dir/m.inc}"]))
            elif how == "sub":
                lines.append(r.choice(["%include %{_sourcedir}/sub/m.inc", "%{load:%{_sourcedir}/sub/m.inc}"]))
            elif how == "brace":
                lines.append("# %{")
            elif how == "brace2":
                tail.append("%{unfinished")
            elif how == "eof":
                tail.append("%include nothing \\")
            else:
                lines.append(r.choice(["Provides: %(cat /nonexistent/x/y 2>/dev/null)", "URL: %{error:x}"]))
        self.names = [n for _, n in srcs + pats]
        self.text = "\n".join(lines + tail) + ("\n" if r.random() < 0.7 else "")

    @staticmethod
    def _top(lines):
        out, depth = [], 0
        for x in lines:
            if x.startswith("%if"):
                depth += 1
            elif x.startswith("%endif"):
                depth -= 1
            elif not depth:
                out.append(x)
        return out

    def need(self, r, ident, i, lines, tail):
        """Something that needs a file to be parsed at all."""
        kind = r.choice(NEED)
        name = f"need{i}{ident}" + {"include": ".inc", "load": ".macros", "tag": ".txt"}[kind]
        live = r.random() < 0.8
        as_source = kind == "tag" or r.random() < 0.6
        num = 50 + i
        new = []
        if as_source:
            new.append(f"Source{num}: " + r.choice(["", "https://example.org/x/"]) + name)
        ref = r.choice([f"%{{SOURCE{num}}}", f"%{{S:{num}}}", f"%SOURCE{num}"])
        ref = ref if as_source else "%{_sourcedir}/" + name
        if kind == "include":
            use = [r.choice(["%include ", "%include   ", "  %include "]) + ref]
        elif kind == "load":
            use = ["%{load:" + ref + "}"]
        else:
            use = [r.choice(["Provides: ", "Requires: ", "Conflicts:  "]) + f"%(cat {ref} 2>/dev/null)"]
        if not live:
            use = ["%if 0%{?nosuch}"] + use + ["%endif"]
        elif r.random() < 0.2:
            use = ["%if 1"] + use + ["%endif"]
        if live:
            self.needs.append([kind, name])
        if kind == "include" and r.random() < 0.3:
            lines += new
            tail[tail.index("%description") + 2 : 0] = []
            at = tail.index("%build") + 1
            tail[at:at] = use
        else:
            lines += new + use


def gen(rng, tier):
    forced = rng.random() < 0.4
    n = rng.choice([1, 1, 2])
    docs = [Doc(rng, chr(97 + i), forced and (i == 0 or rng.random() < 0.5)) for i in range(n)]
    cfg = {
        "docs": [{"text": d.text, "names": d.names, "needs": d.needs} for d in docs],
        "missing": rng.choice(["all", "all", "none", "some", "some", "some"]),
        "bits": rng.randrange(1 << 30),
        "relative": rng.random() < 0.15,
        "nosrc": forced and rng.random() < 0.04,
    }
    kinds = rng.sample(["ENOSPC", "EDQUOT", "EIO", "EACCES", "EROFS", "EMFILE", "SHORT", "TORN", "KINT", "MEM"], 4)
    rate = rng.choice([0, 0.4, 0.7])
    ext = rng.random() < 0.35
    ops = []
    for i in range(rng.randrange(3, 9 if tier == "quick" else 16)):
        c = rng.randrange(n)
        t = rng.random()
        if i == 0 or t < 0.22:
            op = {"op": "new", "c": c, "force": rng.random() < (0.75 if docs[c].needs else 0.3)}
        elif t < 0.62:
            op = {"op": "query", "c": c, "what": rng.choice(["scripts", "scripts", "parsed", "header", "expand", "sources"])}
        elif t < 0.76:
            op = {"op": "files", "bits": rng.randrange(1 << 30), "how": rng.choice(["flip", "rm", "add"])}
        elif t < 0.84:
            op = {"op": "version", "c": c, "v": f"{rng.randrange(1, 9)}.{rng.randrange(9)}"}
        elif t < 0.9:
            op = {"op": "addsrc", "c": c, "name": f"new{i}" + rng.choice(list(KINDS))}
        elif t < (0.92 if docs[c].needs else 0.95):
            op = {"op": "line", "c": c}
        else:
            op = {"op": "force", "c": c, "v": rng.choice([True, False, None, None])}
        if op["op"] in ("new", "query", "version", "addsrc"):
            op["faults"] = []
            op["faults"] = pick_faults(rng, kinds, ["src", "src", "src", "tmp"], rate, 14)
            if ext and rng.random() < 0.5:
                op["faults"].append(
                    {
                        "kind": "EXT",
                        "what": rng.choice(["flip", "rm", "add"]),
                        "bits": rng.randrange(1 << 30),
                        "k": rng.randrange(0, 12),
                    }
                )
        ops.append(op)
    return {"config": cfg, "ops": ops}


def simplify(trace):
    for c, doc in enumerate(trace["config"]["docs"]):
        lines = doc["text"].split("\n")
        for i, line in enumerate(lines):
            if line.startswith(("Source", "Patch", "%uncompress", "cp ", "%patch", "URL", "echo")) and not any(
                n in line for _, n in doc["needs"]
            ):
                t = copy.deepcopy(trace)
                t["config"]["docs"][c]["text"] = "\n".join(lines[:i] + lines[i + 1 :])
                yield t


# -- running ------------------------------------------------------------------------------------


class Client:
    def __init__(self, spec, force, text):
        self.spec = spec
        self.force = force
        # whether a stand-in may have been missing in the parse in effect
        self.doubt = False


# commands RPM words by looking at a file without insisting on its being there
LOOKED = re.compile(r"patch_fail|Cannot read|/usr/bin/patch |rpmuncompress (?!-x)|\b(gzip|bzip2|xz|zstd|unzip|lzip|lrzip|7z|cat)\b")


def run(w, trace):
    from specfile import Specfile
    from specfile.exceptions import RPMException

    cfg = trace["config"]
    top = w.path("src")
    sourcedir = "src" if cfg["relative"] else top
    if cfg["nosrc"]:
        sourcedir = w.path("nosuchdir")
        for d in cfg["docs"]:
            w.write("x.spec", d["text"])
            for force in (False, True):
                out = w.call("new", lambda: Specfile(w.path("x.spec"), sourcedir=sourcedir, force_parse=force))
                if not out.ok:
                    allowed(out, "new")
                w.probe("no source directory")
        return

    def classify(p):
        if isinstance(p, str):
            if p.startswith(top) or p.startswith("src/") or p == "src":
                return "src"
            if p.startswith(w.path("tmp")):
                return "tmp"
        return "other"

    K.classify_path = classify
    # every file any of the documents is about
    needs = {name: kind for d in cfg["docs"] for kind, name in d["needs"]}
    universe = sorted(needs)
    for d in cfg["docs"]:
        universe += sources_of(w, d["text"])
    universe = sorted(set(universe))

    def put(name):
        data = content(name)
        if needs.get(name) == "include":
            data = b"# included\n%global inc_" + name[:4].encode() + b" 1\n"
        elif needs.get(name) == "load":
            data = b"%loaded_" + name[:4].encode() + b" 1\n"
        elif needs.get(name) == "tag":
            data = b"DUMMY"
        w.write("src/" + name, data)

    def present(name):
        return os.path.exists(os.path.join(top, name))

    def change(how, bits):
        done = False
        for i, name in enumerate(universe):
            if not bits >> (i % 29) & 1:
                continue
            if how in ("flip", "add") and not present(name):
                put(name)
                done = True
            elif how in ("flip", "rm") and present(name):
                os.unlink(os.path.join(top, name))
                done = True
        return done

    def ext(f):
        before = {n for n in universe if present(n)}
        if "real" in state:
            # stand-ins are the library's own; only what was there, or is not yet, changes
            standins = {n for n in universe if present(n)} - state["real"]
        else:
            standins = set()
        done = False
        for i, name in enumerate(universe):
            if not f["bits"] >> (i % 29) & 1 or name in standins:
                continue
            if f["what"] in ("flip", "add") and name not in before:
                put(name)
                state["real"].add(name)
                done = True
            elif f["what"] in ("flip", "rm") and name in before:
                os.unlink(os.path.join(top, name))
                state["real"].discard(name)
                done = True
        return done

    state = {}
    K.ext_action = ext
    if cfg["missing"] == "none":
        change("add", -1)
    elif cfg["missing"] == "some":
        change("add", cfg["bits"])

    def reference(text, want, expand=()):
        """RPM's answer with everything the document mentions in place."""
        made = []
        K.inside += 1
        try:
            for name in universe:
                if not present(name):
                    put(name)
                    made.append(name)
            return w.ref.ask(text, top, [], expand, want, key="full", materialise=True)
        finally:
            for name in made:
                os.unlink(os.path.join(top, name))
            K.inside -= 1

    def refused(text):
        """Whether RPM can't parse it with the files that are there now."""
        return not w.ref.ask(text, top, [], nobuild=True)["ok"]

    EXPRS = ["%{name}-%{version}", "%{sources}", "%{patches}", "%{?SOURCE0}", "%{?PATCH0}"]

    def query(s, what):
        if what == "scripts":
            x = s.rpm_spec
            return {k: getattr(x, k) for k in ("prep", "build", "install", "check", "clean")}
        if what == "parsed":
            return s.rpm_spec.parsed
        if what == "header":
            h = s.rpm_spec.sourceHeader
            return [h[k] for k in ("name", "version", "release", "source", "patch")]
        if what == "expand":
            return [s.expand(e) for e in EXPRS]
        with s.sources() as a, s.patches() as b:
            return [[x.number, x.expanded_filename, x.valid] for x in list(a) + list(b) if x.valid]

    def expected(text, what):
        r = reference(text, ["scripts", "parsed", "header", "sources", "filenames"], EXPRS)
        if not r["ok"]:
            return None
        if what == "scripts":
            return r["scripts"]
        if what == "parsed":
            return r["parsed"]
        if what == "header":
            h = r["header"]
            return [h[k] for k in ("name", "version", "release")] + [
                sorted(n for n, _, f in r["sources"] if f == 1),
                sorted(n for n, _, f in r["sources"] if f == 2),
            ]
        if what == "expand":
            return r["expand"]
        return [[n, f] for f, n, _ in r["filenames"]]

    def judge(text, what, got, label, forced, doubt):
        """`forced`: some needed files are not there."""
        want = expected(text, what)
        if want is None:
            w.probe("documents RPM refuses")
            return
        rel = lambda x: x.replace(w.root + "/", "") if isinstance(x, str) else x  # noqa: E731
        if what == "scripts":
            got = {k: rel(v) for k, v in got.items()}
            want = {k: rel(v) for k, v in want.items()}
            if forced:
                hold = lambda t: [  # noqa: E731
                    x for x in (t or "").split("\n") if x.strip("\x00 ") and x != "# included"
                ]
                got = {k: hold(v) for k, v in got.items()}
                want = {k: hold(v) for k, v in want.items()}
            if doubt:
                sure = lambda t: [  # noqa: E731
                    x for x in (t if isinstance(t, list) else (t or "").split("\n")) if x and not LOOKED.search(x)
                ]
                got = {k: sure(v) for k, v in got.items()}
                want = {k: sure(v) for k, v in want.items()}
        elif what == "header":
            got = got[:3] + [sorted(got[3]), sorted(got[4])]
        elif what == "expand":
            got, want = [rel(x) for x in got], [rel(x) for x in want]
        elif what == "sources":
            got = sorted([n, f] for n, f, _ in got)
            want = sorted(want)
        elif what == "parsed":
            got, want = rel(got), rel(want)
            if forced:
                # what such files hold is unknown
                drop = lambda t: [  # noqa: E731
                    x for x in t.split("\n")
                    if x.strip("\x00 ") and not x.startswith(("Provides:", "Requires:", "Conflicts:", "# included"))
                ]
                got, want = drop(got), drop(want)
            if doubt:
                sure = lambda t: [  # noqa: E731
                    x for x in (t if isinstance(t, list) else t.split("\n")) if x and not LOOKED.search(x)
                ]
                got, want = sure(got), sure(want)
        if got != want:
            raise Violation(
                "differs", f"{label}: {what} with some files absent: {diff(got, want)}; absent: "
                f"{[n for n in universe if not present(n)]}"
            )
        w.probe("answers compared with RPM's")

    clients = {}
    for c, d in enumerate(cfg["docs"]):
        w.write(f"s{c}.spec", d["text"])
    for op in trace["ops"]:
        kind = op["op"]
        if kind == "files":
            change(op["how"], op["bits"])
            continue
        c = op["c"] % len(cfg["docs"])
        d = cfg["docs"][c]
        w.ops_done += 1
        state["real"] = {n for n in universe if present(n)}
        faults = op.get("faults")
        if kind == "new":
            text = d["text"]
            absent = [n for k, n in d["needs"] if not present(n)]
            out = w.call(
                "new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=sourcedir, force_parse=op["force"]), faults
            )
            after = {n for n in universe if present(n)}
            if not out.ok:
                clients.pop(c, None)
                allowed(out, "new")
                if out.fired:
                    continue
                if (not refused(text) or op["force"]) and reference(text, [])["ok"]:
                    raise Violation(
                        "refused", f"{'forced ' if op['force'] else ''}parsing fails: {out.desc()}; absent: {absent}"
                    )
                w.probe("refused for want of files")
                continue
            clients[c] = Client(out.value, op["force"], text)
            clients[c].doubt = bool(out.fired)
            if not out.fired:
                needed = refused(text)
                if needed and not reference(text, [])["ok"]:
                    raise Violation("accepted", "a document RPM refuses even with all its files was accepted")
                if needed and not op["force"]:
                    raise Violation("accepted", f"RPM can't parse it without {absent} but it was accepted")
                tainted = clients[c].spec.tainted
                if tainted != needed:
                    raise Violation("tainted", f"tainted is {tainted}, absent: {absent}, forced: {op['force']}")
                w.probe("tainted" if tainted else "not tainted")
            elif any(f[0] == "EXT" for f in out.fired):
                if clients[c].spec.tainted and not op["force"]:
                    raise Violation("tainted", "tainted though not forced")
                w.probe("new while files change")
            continue
        client = clients.get(c)
        if client is None:
            continue
        s = client.spec
        if kind == "force":
            new = not client.force if op["v"] is None else op["v"]
            changed = new != client.force
            s.force_parse = client.force = new
            if not changed:
                continue
            # the next access has to find out anew
            text = str(s)
            absent = [n for k, n in d["needs"] if not present(n)]
            out = w.call("access", lambda: s.rpm_spec and None)
            needed = refused(text)
            if not reference(text, [])["ok"]:
                continue
            client.doubt = False
            if not out.ok:
                allowed(out, kind)
                if new or not needed:
                    raise Violation("refused", f"force_parse set to {new}: {out.desc()}; absent: {absent}")
                w.probe("refused once no longer forced")
                continue
            if needed and not new:
                raise Violation("accepted", f"force_parse set to False: RPM can't parse it without {absent} but it was accepted")
            if s.tainted != needed:
                raise Violation("tainted", f"tainted is {s.tainted}, absent: {absent}, force_parse set to {new}")
            w.probe("forcing turned on or off")
            continue
        if kind == "line":
            with s.lines() as lines:
                lines.insert(1, "# a line")
            client.doubt = False
            text = str(s)
            if client.force and reference(text, [])["ok"]:
                needed = refused(text)
                tainted = w.must("tainted", lambda: s.tainted)
                if tainted != needed:
                    raise Violation("tainted", f"tainted is {tainted} after an edit, absent: {[n for k, n in d['needs'] if not present(n)]}")
                w.probe("tainted found out anew")
            continue
        if kind == "version":
            out = w.call("version", lambda: setattr(s, "version", op["v"]), faults)
            if not out.ok:
                allowed(out, kind)
                if not out.fired and not needy(d, client, refused, str(s)):
                    raise Violation("refused", f"setting the version fails: {out.desc()}")
                continue
            client.doubt = bool(out.fired)
            new = sources_of(w, str(s))
            universe[:] = sorted(set(universe) | set(new))
            w.probe("names changed")
            continue
        if kind == "addsrc":

            def add():
                with s.sources() as x:
                    if op["name"] not in x:
                        x.append(op["name"])

            out = w.call("addsrc", add, faults)
            client.doubt |= bool(out.fired)
            if not out.ok:
                allowed(out, kind)
                if not out.fired and not needy(d, client, refused, str(s)):
                    raise Violation("refused", f"adding a source fails: {out.desc()}")
            universe[:] = sorted(set(universe) | {op["name"]})
            continue
        # query
        what = op["what"]
        was = {n for _, n in d["needs"] if present(n)}
        out = w.call("query " + what, lambda: query(s, what), faults)
        client.doubt |= bool(out.fired)
        text = str(s)
        if not out.ok:
            allowed(out, kind)
            if not out.fired:
                if (client.force or not refused(text)) and reference(text, [])["ok"]:
                    raise Violation("refused", f"{what} fails: {out.desc()}; forced: {client.force}")
                w.probe("refused for want of files")
            continue
        missing = [n for _, n in d["needs"] if not present(n) or n not in was] or s.tainted
        judge(text, what, out.value, f"query ({[f[0] for f in out.fired]})", bool(missing), client.doubt)
        if out.fired:
            w.probe("same answer in spite of faults")


def needy(d, client, refused, text):
    return d["needs"] and not client.force and refused(text)


def allowed(out, kind):
    """How an operation may fail: with RPM's error, or the fault itself."""
    from specfile.exceptions import RPMException

    if isinstance(out.exc, RPMException) or is_simulated(out.exc):
        return
    raise Violation("exception", f"{kind} ends with {out.desc()} (faults: {[f[0] for f in out.fired]})")


def sources_of(w, text):
    r = w.ref.ask(text, w.path("src"), [], want=["sources"], nobuild=True, key="names")
    if r["ok"]:
        return [n for n, _, _ in r["sources"]]
    return []


def diff(got, want):
    if isinstance(got, dict):
        return "; ".join(f"{k}: {diff(got[k], want[k])}" for k in got if got[k] != want[k])
    if isinstance(got, str):
        got, want = got.split("\n"), want.split("\n")
    if isinstance(got, list) and len(got) == len(want):
        return "; ".join(f"{a!r} instead of {b!r}" for a, b in zip(got, want) if a != b)
    return f"{got!r} instead of {want!r}"
