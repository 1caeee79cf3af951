"""C01: what is saved is exactly the document, and a failed save never lies."""

import copy
import datetime
import gc
import os

from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation

ODD = [
    "plain",
    "",
    "   ",
    "\ttab",
    "trailing  ",
    "form\x0cfeed",
    "\x0c",
    "vt\x0bx",
    "fs\x1cgs\x1drs\x1e",
    "nel\x85x",
    "ls\u2028ps\u2029",
    "bom\ufeff",
    "caf\u00e9 \U0001f600",
    "a\x01\x7fb",
    "nbsp\u00a0",
    "%% percent",
    "back\\slash\\\\ q'\"",
    "# comment with {braces",
]
# bytes that are not valid UTF-8, as the library represents them
RAW = ["latin1 \udce9", "\udcff\udcfe", "cut \udcc3", "mid\udc80dle", "over \udcc0\udcaf"]

ANY_TEXT = True


def base_text(rng, padded):
    n = rng.randrange(0, 5)
    pre = ["# " + rng.choice(ODD) for _ in range(n)]
    text = pre + [
        "Name:           t",
        "Version:        1.0",
        "Release:        1%{?dist}",
        "Summary:        s",
        "License:        MIT",
        "Source0:        a.tar.gz",
        "",
        "%description",
        rng.choice(["text", "d\x0cd", "", "u\u2028v", "n\x85n"]),
        "",
        "%prep",
    ]
    for _ in range(rng.randrange(0, 4)):
        text.append("echo '" + rng.choice(ODD[:14] + RAW) + "'")
    if padded:
        for i in range(padded):
            text.append(f"# padding {i} " + "x" * 60)
    text += ["", "%changelog", "* Mon Jan 01 2024 A B <a@b.c> - 1.0-1", "- first"]
    out = "\n".join(text)
    return out + rng.choice(["\n", "\n", "\n", "", "\n\n", "\n \n", "\n\x0c"])


def any_text(rng):
    """Something another program may have put into the file; need not parse."""
    r = rng.random()
    if r < 0.15:
        return ""
    if r < 0.25:
        return rng.choice(["\n", "\n\n", "x", " ", "\x0c", "\u2028", "\x85\n", "\x00\n"])
    lines = [rng.choice(ODD + RAW + ["Name: t", "%if 1"]) for _ in range(rng.randrange(1, 6))]
    return "\n".join(lines) + rng.choice(["", "\n", "\n\n"])


def edits(rng):
    out = []
    for _ in range(rng.randrange(1, 4)):
        r = rng.random()
        text = rng.choice(ODD + RAW)
        if r < 0.5:
            out.append(["ins", rng.randrange(0, 30), "# " + text])
        elif r < 0.7:
            out.append(["set", rng.randrange(0, 30), "# " + text])
        elif r < 0.85:
            out.append(["del", rng.randrange(0, 30), ""])
        else:
            out.append(["add", 0, "# " + text])
    return out


def gen(rng, tier):
    padded = rng.choice([0, 0, 0, 150, 1500])
    specs = [base_text(rng, padded if i == 0 else 0) for i in range(rng.choice([1, 1, 2]))]
    faulty = rng.random() < 0.75
    kinds = rng.sample(
        ["ENOSPC", "EDQUOT", "EIO", "EACCES", "EROFS", "EMFILE", "SHORT", "TORN", "KINT", "MEM"],
        rng.randrange(1, 6),
    )
    ops = []
    for i in range(rng.randrange(3, 12)):
        c = rng.randrange(len(specs))
        r = rng.random()
        if i == 0 or r < 0.06:
            op = {"op": "new", "c": c, "autosave": rng.random() < 0.4}
        elif r < 0.24:
            op = {"op": "save", "c": c, "retry": rng.random() < 0.5}
        elif r < 0.38:
            op = {"op": "reload", "c": c, "retry": rng.random() < 0.5}
        elif r < 0.58:
            op = {"op": "lines", "c": c, "edits": edits(rng), "raise": rng.random() < 0.2}
        elif r < 0.68:
            op = {"op": "with", "c": c, "edits": edits(rng), "raise": rng.random() < 0.3}
        elif r < 0.78:
            op = {"op": "api", "c": c, "what": rng.choice(API)}
        elif r < 0.84:
            op = {"op": "read", "c": c, "what": rng.choice(READS)}
        elif r < 0.91:
            if rng.random() < 0.4:
                op = {"op": "ext", "c": c, "text": any_text(rng)}
            else:
                op = {"op": "tweak", "c": c, "how": rng.choice(TWEAKS), "n": rng.randrange(40)}
        elif r < 0.94:
            op = {"op": "path", "c": c, "n": rng.randrange(3)}
        elif r < 0.97:
            op = {"op": "copy", "c": c, "to": rng.randrange(3)}
        else:
            op = {"op": "autosave", "c": c, "v": rng.random() < 0.5}
        if faulty and op["op"] in ("new", "save", "reload", "lines", "with", "api", "read"):
            op["faults"] = pick_faults(rng, kinds, ["spec", "spec", "spec", "tmp"], 0.5, 6)
            if op["op"] in ("save", "reload", "with", "lines") and rng.random() < 0.5:
                for f in op["faults"]:
                    f["cat"] = "spec"
                    f["k"] = min(f["k"], rng.randrange(0, 5))
                    f.pop("call", None)
                    f.pop("path", None)
        ops.append(op)
        if op["op"] in ("ext", "tweak") and rng.random() < 0.6:
            ops.append({"op": rng.choice(["save", "reload"]), "c": c, "retry": False})
    # files opened without saying how are read and written as the locale says
    encoding = rng.choice(["utf-8", "utf-8", "iso-8859-1", "ascii"])
    return {"config": {"specs": specs, "encoding": encoding}, "ops": ops}


TWEAKS = ["chop", "newline", "rawbyte", "rawbyte", "case", "space", "drop", "zero", "ff"]


def tweak(data, how, n):
    """What another program may do to a file without changing much of it."""
    if how == "chop":
        return data[:-1] if data.endswith(b"\n") else data + b"\n"
    if how == "newline":
        return data + b"\n"
    if how in ("rawbyte", "zero", "ff"):
        # change bytes that no text shows, or put one there
        bad = [i for i, b in enumerate(data) if b in b"\xe9\xff\xfe\xc3\x80\xc0\xaf"]
        if how == "rawbyte" and bad:
            i = bad[n % len(bad)]
            return data[:i] + bytes([0xFE if data[i] != 0xFE else 0xFF]) + data[i + 1 :]
        i = n % (len(data) + 1)
        return data[:i] + (b"\xff" if how == "ff" else b"\x01") + data[i:]
    if not data:
        return b" "
    lines = data.split(b"\n")
    i = n % len(lines)
    if how == "case":
        lines[i] = lines[i].swapcase()
    elif how == "space":
        lines[i] += b" "
    elif how == "drop":
        del lines[i]
    return b"\n".join(lines)


API = ["version", "summary", "addpatch", "changelog", "deltag", "sections", "setvr"]
READS = ["expand", "sections", "tags", "valid", "str", "changelog", "macros", "repr"]


def to_lines(text):
    if not text:
        return [], False
    lines = text.split("\n")
    if lines[-1] == "":
        return lines[:-1], True
    return lines, False


def to_text(lines, newline):
    return "\n".join(lines) + ("\n" if newline else "")


class AppError(Exception):
    pass


class Doc:
    def __init__(self, spec, text, path):
        self.spec = spec
        self.text = text  # what the document is, by the model
        self.path = path
        self.nl = to_lines(text)[1]


def enc(text):
    return text.encode("utf8", "surrogateescape")


def run(w, trace):
    from specfile import Specfile

    docs = {}
    cfg = trace["config"]
    K.locale_encoding = cfg.get("encoding", "utf-8")
    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)
    if not cfg["specs"]:
        return
    watch = {}

    def on_disk(path):
        try:
            return w.read(path)
        except FileNotFoundError:
            return None

    K.classify_path = lambda p: (
        "spec"
        if isinstance(p, str) and p.endswith(".spec")
        else "tmp"
        if isinstance(p, str) and p.startswith(w.path("tmp"))
        else "other"
    )

    def observer(when, ev):
        if not watch or ev.call in ("rpm", "dup", "read", "openr", "stat"):
            return
        target = w.path(watch["path"])
        hit = ev.path == target or ev.flags == target
        if when == "before":
            if hit and not watch["may_write"] and ev.call not in ("close", "sync", "meta"):
                K.fail(
                    "unasked-write",
                    f"{watch['op']} with autosave off: {ev.call} on the spec file",
                )
            return
        if hit:
            now = on_disk(watch["path"])
            if now != watch["states"][-1][1]:
                watch["states"].append((ev.call, now))

    K.observers = [observer]

    def check_states(op, old, new, multi):
        """Every state of the file seen during the operation."""
        states = watch["states"][1:]
        prev = old
        for call, state in states:
            ok = state == old or state == new or (state is not None and new.startswith(state))
            if not ok and multi:
                # several saves in one operation: each one grows from nothing
                ok = state == b"" or (
                    prev is not None and state is not None and state.startswith(prev)
                )
            if not ok:
                raise Violation(
                    "torn-state",
                    f"during {op} (after {call}) the spec file held neither its previous text "
                    f"nor a prefix of the new one: {state if state is None else state[-80:]!r}",
                )
            prev = state

    for op in trace["ops"]:
        kind = op["op"]
        c = op["c"]
        if kind == "ext":
            i = c % len(cfg["specs"])
            w.write(f"s{i}.spec", op["text"])
            continue
        if kind != "new" and c not in docs:
            continue
        doc = docs.get(c)
        if kind == "tweak":
            data = on_disk(doc.path)
            if data is not None:
                w.write(doc.path, tweak(data, op["how"], op["n"]))
            continue
        faults = op.get("faults")
        if kind == "path":
            doc.path = f"s{op['n']}.spec"
            doc.spec.path = w.path(doc.path)
            continue
        if kind == "autosave":
            doc.spec.autosave = op["v"]
            continue
        if kind == "copy":
            new = w.must("copy", lambda: copy.deepcopy(doc.spec))
            if str(new) != doc.text:
                raise Violation("copy", "a copy differs from its original")
            docs[op["to"]] = Doc(new, doc.text, doc.path)
            docs[op["to"]].nl = doc.nl
            gc.collect()
            continue
        w.ops_done += 1
        path = doc.path if doc else f"s{c % len(cfg['specs'])}.spec"
        before = on_disk(path)
        watch.clear()
        watch.update(op=kind, path=path, states=[(None, before)], may_write=True)

        if kind == "new":
            watch["may_write"] = False
            out = w.call(
                "new", lambda: Specfile(w.path(path), autosave=op["autosave"]), faults
            )
            if on_disk(path) != before:
                raise Violation("load-wrote", "loading changed the file")
            if out.ok:
                want = before.decode("utf8", "surrogateescape")
                if str(out.value) != want:
                    raise Violation(
                        "load", f"loaded text differs from the file: {diff(str(out.value), want)}"
                    )
                docs[c] = Doc(out.value, want, path)
            elif not out.fired and before is not None:
                # only RPM may refuse it
                w.write("src/a.tar.gz", b"")
                ref = w.ref.ask(before.decode("utf8", "surrogateescape"), w.path("src"))
                if ref["ok"]:
                    raise Violation("load-failed", f"loading failed: {out.desc()}")
            continue

        spec = doc.spec
        if kind == "save":
            out = w.call("save", spec.save, faults)
            settle(w, "save", out, doc, before, watch, on_disk, check_states)
            if not out.ok and op.get("retry"):
                before2 = on_disk(path)
                watch["states"] = [(None, before2)]
                out = w.call("save again", spec.save)
                settle(w, "save", out, doc, before2, watch, on_disk, check_states)
                w.probe("save repeated after a failure")
        elif kind == "reload":
            watch["may_write"] = False
            out = w.call("reload", spec.reload, faults)
            reloaded(w, out, doc, before, on_disk)
            if not out.ok and op.get("retry") and before is not None:
                out = w.call("reload again", spec.reload)
                reloaded(w, out, doc, before, on_disk)
                w.probe("reload repeated after a failure")
        elif kind in ("lines", "with"):
            lines, _ = to_lines(doc.text)
            watch["may_write"] = spec.autosave or kind == "with"
            expected = list(lines)
            applied = {"n": False}

            def body(target):
                # the application's own edit, outside of the simulated calls
                if to_text(target, doc.nl) == doc.text:
                    # no lines at all and one empty line are the same text
                    expected[:] = target
                else:
                    raise Violation(
                        "lines-view", f"lines differ from the document: {target} {expected}"
                    )
                apply(target, op["edits"])
                applied["n"] = True
                if op.get("raise"):
                    raise AppError()

            def do():
                if kind == "with":
                    with spec:
                        with spec.lines() as ls:
                            body(ls)
                else:
                    with spec.lines() as ls:
                        body(ls)

            out = w.call(kind, do, faults)
            if isinstance(out.exc, Violation):
                raise out.exc
            if applied["n"]:
                apply(expected, op["edits"])
                doc.text = to_text(expected, doc.nl)
            if str(spec) != doc.text:
                raise Violation(
                    "memory",
                    f"{kind} ({out.desc()}, faults {out.fired}) left the document wrong: "
                    + diff(str(spec), doc.text),
                )
            now = on_disk(path)
            saves = spec.autosave or kind == "with"
            if isinstance(out.exc, AppError) or out.ok:
                if saves and now != enc(doc.text):
                    raise Violation(
                        "not-saved",
                        f"{kind} ended ({out.desc()}, faults {out.fired}) but the file differs "
                        f"from the document: {diff_b(now, enc(doc.text))}",
                    )
            elif not out.fired:
                raise Violation("unexpected-exception", f"{kind}: {out.desc()}")
            if not saves and now != before:
                raise Violation("unasked-write", f"{kind} with autosave off wrote the file")
            check_states(kind, before, enc(doc.text), False)
        elif kind in ("api", "read"):
            watch["may_write"] = spec.autosave
            fn = api(spec, op["what"], kind)
            out = w.call(f"{kind} {op['what']}", fn, faults)
            now = on_disk(path)
            text = str(spec)
            if kind == "read" and text != doc.text:
                raise Violation(
                    "read-changed", f"reading {op['what']} changed the document: "
                    + diff(text, doc.text)
                )
            if not spec.autosave and now != before:
                raise Violation("unasked-write", f"{op['what']} with autosave off wrote the file")
            if out.ok and spec.autosave and kind == "api" and now != enc(text):
                raise Violation(
                    "not-saved",
                    f"{op['what']} with autosave succeeded (faults {out.fired}) but the file "
                    f"differs from the document: {diff_b(now, enc(text))}",
                )
            if spec.autosave:
                check_states(op["what"], before, enc(text), True)
            doc.text = text
            doc.nl = to_lines(text)[1] if text else doc.nl
        watch.clear()


def apply(lines, edits):
    for what, i, text in edits:
        if what == "add":
            lines.append(text)
        elif what == "ins":
            lines.insert(i % (len(lines) + 1), text)
        elif lines:
            # keep the parts RPM insists on
            i %= len(lines)
            if lines[i].startswith("#") or not lines[i].strip():
                if what == "set":
                    lines[i] = text
                else:
                    del lines[i]


def settle(w, kind, out, doc, before, watch, on_disk, check_states):
    now = on_disk(doc.path)
    want = enc(doc.text)
    if str(doc.spec) != doc.text:
        raise Violation("memory", f"{kind} ({out.desc()}) changed the document in memory")
    if out.ok:
        if now != want:
            raise Violation(
                "not-saved",
                f"{kind} reported success (faults {out.fired}) but the file differs: "
                + diff_b(now, want),
            )
    elif not out.fired:
        raise Violation("unexpected-exception", f"{kind}: {out.desc()}")
    check_states(kind, before, want, False)


def reloaded(w, out, doc, before, on_disk):
    if on_disk(doc.path) != before:
        raise Violation("unasked-write", "reload changed the file")
    if out.ok:
        want = (before or b"").decode("utf8", "surrogateescape")
        if before is None:
            raise Violation("reload", "reload of a missing file succeeded")
        if str(doc.spec) != want:
            raise Violation(
                "reload", f"reloaded text differs from the file: {diff(str(doc.spec), want)}"
            )
        doc.text = want
        doc.nl = to_lines(want)[1]
    else:
        if before is not None and not out.fired:
            raise Violation("unexpected-exception", f"reload: {out.desc()}")
        if str(doc.spec) != doc.text:
            raise Violation("memory", "a failed reload changed the document in memory")


def api(spec, what, kind):
    def version():
        spec.version = "2.5"

    def setvr():
        spec.set_version_and_release("3.0", "7")

    def summary():
        with spec.tags() as tags:
            tags.summary.value = "other"

    def deltag():
        with spec.tags() as tags:
            if "url" in tags:
                del tags.url

    def addpatch():
        with spec.patches() as patches:
            n = len(patches)
        spec.add_patch(f"fix{n}.patch")

    def changelog():
        spec.add_changelog_entry(
            "- entry",
            author="A B",
            email="a@b.c",
            timestamp=datetime.date(2024, 5, 6),
        )

    def sections():
        with spec.sections() as sections:
            sections.changelog.append("- more")

    if kind == "api":
        return {
            "version": version,
            "setvr": setvr,
            "summary": summary,
            "deltag": deltag,
            "addpatch": addpatch,
            "changelog": changelog,
            "sections": sections,
        }[what]

    def r_sections():
        with spec.sections() as s:
            return len(s)

    def r_tags():
        with spec.tags() as t:
            return len(t)

    def r_valid():
        with spec.tags() as t:
            return [x.valid for x in t]

    def r_changelog():
        with spec.changelog() as c:
            return len(c) if c else 0

    def r_macros():
        with spec.macro_definitions() as m:
            return len(m)

    return {
        "expand": lambda: spec.expand("%{name}"),
        "sections": r_sections,
        "tags": r_tags,
        "valid": r_valid,
        "str": lambda: str(spec),
        "changelog": r_changelog,
        "macros": r_macros,
        "repr": lambda: repr(spec),
    }[what]


def diff(a, b):
    return diff_b(enc(a), enc(b))


def diff_b(a, b):
    if a is None or b is None:
        return f"{a!r} {b!r}"
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f"at byte {i}: {a[max(0, i - 20):i + 30]!r} instead of {b[max(0, i - 20):i + 30]!r}"
