"""C06: nested views of one spec stay coherent and are written back once."""

import copy
import gc
import re

from sim.faults import pick_faults
from sim.kernel import IDS, K
from sim.world import Violation

NEEDS_REF = False

# every view holds the document through the coarser ones below it
IMPLIES = {
    "lines": {"lines"},
    "md": {"md", "lines"},
    "sections": {"sections", "lines"},
    "tags": {"tags", "sections", "lines"},
    "tagsub": {"tagsub", "sections", "lines"},
    "changelog": {"changelog", "sections", "lines"},
    "prep": {"prep", "sections", "lines"},
    "sources": {"sources", "tags", "sections", "lines"},
    "patches": {"patches", "tags", "sections", "lines"},
    # the same with arguments is a view of its own
    "srcdup": {"srcdup", "tags", "sections", "lines"},
}
VIEWS = list(IMPLIES)
SECTION = re.compile(r"^%(description|package|prep|build|install|files|changelog|check|sourcelist)\b")
# which view keeps the lines of a section while it is open
HOLDS = {
    "package": {"tags"},
    "package sub": {"tagsub"},
    "prep": {"prep"},
    "changelog": {"changelog"},
    "sourcelist": {"sources", "srcdup"},
}


def gen_text(rng, ident):
    lines = [f"%global foo f{ident}", "%global num 3"]
    if rng.random() < 0.5:
        lines.append("%global flag 1")
    lines += [
        "",
        f"Name:           pkg{ident}",
        "Version:        1.%{num}",
        "Release:        1%{?dist}",
        "# about",
        f"Summary:        sum {ident}",
        "License:        MIT",
        "URL:            https://example.org",
    ]
    if rng.random() < 0.5:
        lines += ["%if 0%{?flag}", "BuildRequires:  gcc", "%else", "BuildRequires:  clang", "%endif"]
    srclist = rng.random() < 0.4
    lines.append(f"Source0:        a{ident}.tar.gz")
    if not srclist:
        lines.append(f"Source1:        b{ident}.txt")
    lines.append(f"Patch0:         p{ident}.patch")
    if rng.random() < 0.3:
        lines.append("# end of preamble")
    lines.append("")
    if srclist:
        lines += ["%sourcelist", f"l{ident}1.txt", f"l{ident}2.txt", ""]
    lines += ["%description", "Text.", ""]
    lines += ["%package sub", "Summary: sub", f"Group: g{ident}", ""]
    lines += ["%description sub", "Sub.", ""]
    lines += ["%prep", "%setup -q -n x", "echo prep", "", "%build", "echo build", ""]
    lines += ["%install", "", "%files", "", "%changelog"]
    for i in range(rng.randrange(1, 4)):
        lines += [f"* Mon May 0{7 - i} 2024 A B <a@b> - 1.{3 - i}-1", f"- entry {i}", ""]
    if rng.random() < 0.5:
        lines.pop()
    return "\n".join(lines) + "\n"


EXCS = ["ValueError", "KeyboardInterrupt", "StopIteration", "RuntimeError", "GeneratorExit"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    same = rng.random() < 0.4
    specs = [gen_text(rng, "a" if same else "abc"[i]) for i in range(n)]
    if same:
        specs = [specs[0]] * n
    onefile = same and rng.random() < 0.6
    autosave = [not onefile and rng.random() < 0.3 for _ in range(n)]
    faulty = rng.random() < 0.4
    kinds = rng.sample(["KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "EACCES", "TORN"], 3)
    ops = [{"op": "new", "c": c} for c in range(n)]
    for _ in range(rng.randrange(8, 40)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.3:
            op = {"op": "open", "c": c, "view": rng.choice(VIEWS)}
        elif r < 0.6:
            op = {"op": "edit", "c": c, "n": rng.randrange(1000)}
        elif r < 0.75:
            op = {"op": "close", "c": c, "levels": rng.choice([1, 1, 1, 2, 9])}
        elif r < 0.83:
            op = {"op": "raise", "c": c, "levels": rng.choice([1, 2, 3, 9])}
            op["exc"] = rng.choice(EXCS)
        elif r < 0.88:
            op = {"op": "content", "c": c, "view": rng.choice(VIEWS)}
        elif r < 0.91:
            op = {"op": "abandon", "c": c, "view": rng.choice(VIEWS), "cycle": rng.random() < 0.6}
        elif r < 0.93:
            op = {"op": "forget", "c": c}
        elif r < 0.94:
            op = {"op": "gc"}
        elif r < 0.96:
            op = {"op": "copy", "c": c, "to": rng.randrange(n)}
        elif r < 0.98:
            op = {"op": "reload", "c": c}
        else:
            op = {"op": "new", "c": c}
        if faulty and op["op"] in ("open", "close", "content"):
            op["faults"] = pick_faults(rng, kinds, ["tmp", "src", "spec"], 0.3, 8)
        ops.append(op)
    return {"config": {"specs": specs, "autosave": autosave, "onefile": onefile}, "ops": ops}


# -- the model: one list of lines -------------------------------------------------------


def split(lines):
    """[(id, start, end)] with the header at `start`, except for the preamble."""
    out = [["package", 0, len(lines)]]
    for i, line in enumerate(lines):
        if SECTION.match(line):
            out[-1][2] = i
            out.append([line[1:], i, len(lines)])
    return out


def body(lines, name):
    for n, s, e in split(lines):
        if n == name:
            return (s, e) if n == "package" else (s + 1, e)
    return None


def tag_line(lines, section, name):
    rng = body(lines, section)
    for i in range(*rng):
        m = re.match(rf"^{name}(\s*:\s*)(.*)$", lines[i])
        if m:
            return i, f"{name}{m.group(1)}", m.group(2)
    return None


class Client:
    def __init__(self, spec, text):
        self.spec = spec
        self.lines = text[:-1].split("\n")  # the model
        self.stack = []  # (view, context manager, value)
        self.serial = 0
        self.abandoned = []  # [(view, cycle)]
        self.dead = False

    def held(self):
        out = set()
        for view, _, _ in self.stack:
            out |= IMPLIES[view]
        for view, _ in self.abandoned:
            out |= IMPLIES[view]
        return out


def make(cl, view):
    spec = cl.spec
    if view == "md":
        return spec.macro_definitions()
    if view == "tagsub":
        sections = next(v for n, _, v in cl.stack if n == "sections")
        return spec.tags(sections.get("package sub"))
    if view == "srcdup":
        # in any order
        kw = [("allow_duplicates", True), ("default_source_number_digits", 2)]
        return spec.sources(**dict(kw if cl.serial % 2 else reversed(kw)))
    return getattr(spec, view)()


def can_open(cl, view):
    held = cl.held()
    if view == "md":
        return held <= {"md", "lines"}
    if view == "tagsub":
        # nothing else may hold the section while the view is open
        return any(n == "sections" for n, _, _ in cl.stack)
    if {view} | held >= {"sources", "srcdup"} and body(cl.lines, "sourcelist"):
        # both would hold the section
        return False
    return not (view != "lines" and "md" in held)


def value_of(cl, view):
    for n, _, v in cl.stack:
        if n == view:
            return v
    return None


def edits(cl):
    """Edits that the open views allow, as (name, function on the model, function on views)."""
    held = cl.held()
    lines = cl.lines
    out = []
    cl.serial += 1
    new = f"new{cl.serial}"

    def replace(i, text):
        return lambda: lines.__setitem__(i, text)

    def insert(i, text):
        return lambda: lines.insert(i, text)

    if held == {"lines"} and value_of(cl, "lines") is not None:
        v = value_of(cl, "lines")
        i = 3 + cl.serial % 3
        out.append(("line", insert(i, f"# {new}"), lambda v=v: v.insert(i, f"# {new}")))
    if "md" in held and value_of(cl, "md") is not None:
        v = value_of(cl, "md")
        for name in ("foo", "num"):
            i = next(i for i, x in enumerate(lines) if x.startswith(f"%global {name} "))
            out.append(
                (
                    "md",
                    replace(i, f"%global {name} {cl.serial}"),
                    lambda v=v, name=name, s=cl.serial: setattr(v.get(name), "body", str(s)),
                )
            )
    if value_of(cl, "sections") is not None:
        v = value_of(cl, "sections")
        for name, s, e in split(lines):
            if HOLDS.get(name, set()) & held or name in ("package", "files"):
                continue
            if name == "changelog":
                continue
            text = f"# {new}" if name in ("package sub",) else f"text {new}"
            if name == "sourcelist":
                text = f"{new}.txt"
            out.append(
                (
                    "section",
                    insert(s + 1, text),
                    lambda v=v, name=name, text=text: v.get(name).insert(0, text),
                )
            )
    if value_of(cl, "tags") is not None:
        v = value_of(cl, "tags")
        for name in ("Summary", "URL", "License", "Source0", "Patch0"):
            i, prefix, _ = tag_line(lines, "package", name)
            text = new if name not in ("Source0", "Patch0") else f"{new}.patch"
            out.append(
                (
                    "tag",
                    replace(i, prefix + text),
                    lambda v=v, name=name, text=text: setattr(getattr(v, name), "value", text),
                )
            )
        i, _, _ = tag_line(lines, "package", "Version")
        out.append(
            ("comment", insert(i, f"# {new}"), lambda v=v: v.version.comments.append(new))
        )
    if value_of(cl, "tagsub") is not None:
        v = value_of(cl, "tagsub")
        i, prefix, _ = tag_line(lines, "package sub", "Group")
        out.append(("subtag", replace(i, prefix + new), lambda v=v: setattr(v.group, "value", new)))
    if value_of(cl, "changelog") is not None:
        v = value_of(cl, "changelog")
        s, e = body(lines, "changelog")
        heads = [i for i in range(s, e) if lines[i].startswith("* ")]
        k = cl.serial % len(heads)
        out.append(
            (
                "changelog",
                insert(heads[k] + 1, f"- {new}"),
                lambda v=v: v[len(heads) - 1 - k].content.insert(0, f"- {new}"),
            )
        )
    if value_of(cl, "prep") is not None:
        v = value_of(cl, "prep")
        i = next(i for i, x in enumerate(lines) if x.startswith("%setup"))
        out.append(
            (
                "prep",
                replace(i, f"%setup -q -n {new}"),
                lambda v=v: setattr(v.setup.options, "n", new),
            )
        )
    for view, name in (("sources", "Source0"), ("patches", "Patch0"), ("srcdup", "Source0")):
        if value_of(cl, view) is not None:
            v = value_of(cl, view)
            i, prefix, _ = tag_line(lines, "package", name)
            out.append(
                (
                    view,
                    replace(i, prefix + f"{new}.gz"),
                    lambda v=v: setattr(v[0], "location", f"{new}.gz"),
                )
            )
    if value_of(cl, "sources") is not None and body(lines, "sourcelist"):
        v = value_of(cl, "sources")
        s, e = body(lines, "sourcelist")
        i = next(i for i in range(s, e) if lines[i])
        out.append(
            ("sourcelist", replace(i, f"{new}.txt"), lambda v=v: setattr(v[1], "location", f"{new}.txt"))
        )
    return out


def check(cl, where):
    """Every view shows what it has to show."""
    held = cl.held()
    lines = cl.lines

    def bad(what, got, want):
        raise Violation("incoherent", f"{where}: {what} is {got!r} instead of {want!r}")

    finest = held - {"lines"}
    if not finest:
        text = str(cl.spec)
        if text != "\n".join(lines) + "\n":
            got = text.split("\n")
            i = next(
                (i for i, (a, b) in enumerate(zip(got, lines)) if a != b),
                min(len(got), len(lines)),
            )
            bad(f"line {i + 1} of the document", got[i : i + 3], lines[i : i + 3])
    for view, _, v in cl.stack:
        if view == "lines" and not finest and v != lines:
            bad("the lines view", "different", "the document")
        elif view == "sections":
            want = split(lines)
            if [s.id for s in v] != [n for n, _, _ in want]:
                bad("the list of sections", [s.id for s in v], [n for n, _, _ in want])
            for name, _, _ in want:
                if HOLDS.get(name, set()) & held:
                    continue
                s, e = body(lines, name)
                if list(v.get(name)) != lines[s:e]:
                    bad(f"section {name}", list(v.get(name)), lines[s:e])
        elif view in ("tags", "tagsub"):
            sec = "package" if view == "tags" else "package sub"
            names = ("Name", "Summary", "URL", "Patch0", "Source0")
            for name in names if view == "tags" else ("Summary", "Group"):
                got = getattr(v, name).value
                want = tag_line(lines, sec, name)[2]
                if got != want:
                    bad(f"tag {name}", got, want)
            if view == "tags":
                i, _, _ = tag_line(lines, sec, "Version")
                want = []
                while lines[i - 1].startswith("#"):
                    want.insert(0, lines[i - 1][2:])
                    i -= 1
                got = [c.text for c in v.version.comments]
                if got != want:
                    bad("comments of Version", got, want)
        elif view == "md":
            for name in ("foo", "num"):
                want = next(x for x in lines if x.startswith(f"%global {name} ")).split(" ", 2)[2]
                if v.get(name).body != want:
                    bad(f"macro {name}", v.get(name).body, want)
        elif view == "changelog":
            s, e = body(lines, "changelog")
            want = [x for x in lines[s:e] if x]
            got = []
            for entry in reversed(v):
                got.append(entry.header)
                got += [x for x in entry.content if x]
            if got != want:
                bad("the changelog", got, want)
        elif view == "prep":
            want = next(x for x in lines if x.startswith("%setup -q -n ")).split(" ")[3]
            if v.setup.options.n != want:
                bad("%setup -n", v.setup.options.n, want)
        elif view in ("sources", "patches", "srcdup"):
            name = "Patch" if view == "patches" else "Source"
            want = []
            s, e = body(lines, "package")
            for i in range(s, e):
                m = re.match(rf"^{name}\d+\s*:\s*(.*)$", lines[i])
                if m:
                    want.append(m.group(1))
            if view != "patches" and body(lines, "sourcelist"):
                s, e = body(lines, "sourcelist")
                want += [x for x in lines[s:e] if x]
            got = [x.location for x in v]
            if got != want:
                bad(view, got, want)


def exception(name):
    import builtins

    return getattr(builtins, name)("raised in the block")


def close_one(w, cl, exc=None, faults=None):
    view, cm, value = cl.stack.pop()
    value = None

    def leave():
        if exc is None:
            return cm.__exit__(None, None, None)
        try:
            raise exc
        except BaseException as e:
            return cm.__exit__(type(e), e, e.__traceback__)

    out = w.call("close", leave, faults)
    if out.ok:
        if out.value:
            raise Violation("swallowed", f"closing {view} swallowed {exc!r}")
    elif exc is not None and (
        out.exc is exc or out.exc.__cause__ is exc or out.exc.__context__ is exc
    ):
        pass
    elif not out.fired:
        raise Violation("close-failed", f"closing {view}: {out.desc()}")
    return view


def drop_abandoned(w, cl):
    """Discarded views are collected one by one, the innermost first."""
    while cl.abandoned:
        view, cycle = cl.abandoned.pop()
        cycle = None
        gc.collect()


def settle(w, cl):
    """The application leaves all blocks."""
    while cl.stack:
        close_one(w, cl)
    drop_abandoned(w, cl)


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]
    clients = {}

    def file(c):
        return "s0.spec" if cfg.get("onefile") else f"s{c}.spec"

    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
            if p.endswith(".spec"):
                return "spec"
        return "other"

    K.classify_path = classify
    for op in trace["ops"]:
        kind = op["op"]
        if kind == "gc":
            gc.collect()
            for cl in clients.values():
                # what was opened inside a discarded view is closed before it, as in any nesting
                if len(cl.abandoned) == 1 and not cl.stack:
                    cl.abandoned.clear()
                    gc.collect()
                    check(cl, "gc")
            continue
        c = op["c"]
        if c >= len(cfg["specs"]):
            continue
        if kind == "new":
            if c in clients:
                settle(w, clients[c])
                # a failed save may have left anything there
                w.write(file(c), "\n".join(clients[c].lines) + "\n")
            clients.pop(c, None)
            spec = w.must(
                "new",
                lambda: Specfile(
                    w.path(file(c)), sourcedir=w.path("src"), autosave=cfg["autosave"][c]
                ),
            )
            clients[c] = Client(spec, str(spec))
            spec = None
            continue
        if c not in clients:
            continue
        cl = clients[c]
        where = f"{op}"
        w.ops_done += 1
        if kind == "open":
            view = op["view"]
            if not can_open(cl, view) or len(cl.stack) > 6:
                continue
            # a view opened and held already, here or by a discarded one
            known = value_of(cl, view)

            def enter():
                cm = make(cl, view)
                return cm, cm.__enter__()

            out = w.call("open", enter, op.get("faults"))
            if not out.ok:
                if not out.fired:
                    raise Violation("open-failed", f"{where}: {out.desc()}")
                w.probe("open failed")
            else:
                cm, value = out.value
                if known is not None:
                    w.probe("opened again")
                    if value is not known:
                        raise Violation("not-same", f"{where}: another object for an open view")
                cl.stack.append((view, cm, value))
                w.probe(f"depth {len(cl.stack)}")
            out = cm = value = known = None
        elif kind == "edit":
            choice = edits(cl)
            if choice:
                name, on_model, on_view = choice[op["n"] % len(choice)]
                w.probe("edit: " + name)
                out = w.call("edit", on_view)
                if not out.ok:
                    raise Violation("edit-failed", f"{where} {name}: {out.desc()}")
                on_model()
            choice = on_model = on_view = None
        elif kind == "close":
            for i in range(min(op["levels"], len(cl.stack))):
                close_one(w, cl, faults=op.get("faults") if i == 0 else None)
                check(cl, where)
        elif kind == "raise":
            exc = exception(op["exc"])
            for _ in range(min(op["levels"], len(cl.stack))):
                close_one(w, cl, exc)
                check(cl, where)
            w.probe("exception in a block")
            exc = None
        elif kind == "content":
            view = op["view"]
            held = cl.held()
            if view in held or view in ("tagsub", "lines") or not can_open(cl, view):
                continue
            if view in ("sources", "patches", "srcdup") and "tags" in held:
                # these work on the open tags
                continue
            out = w.call("content", lambda: make(cl, view).content, op.get("faults"))
            if not out.ok and not out.fired:
                raise Violation("content-failed", f"{where}: {out.desc()}")
            if out.ok:
                w.probe("content")
                snapshot_edit(view, out.value)
            out = None
        elif kind == "abandon":
            view = op["view"]
            if not can_open(cl, view) or cl.abandoned or cl.stack:
                continue
            if view == "tagsub":
                continue
            out = w.call("abandon", lambda: make(cl, view))
            if not out.ok:
                raise Violation("open-failed", f"{where}: {out.desc()}")
            w.probe("discarded without entering")
            if op["cycle"]:
                cycle = [out.value]
                cycle.append(cycle)
                cl.abandoned.append((view, cycle))
                cycle = None
            out = None
        elif kind == "forget":
            # an entered view whose manager is dropped
            if len(cl.stack) == 1 and not cl.abandoned and not cfg["autosave"][c]:
                view, cm, value = cl.stack.pop()
                cm = value = None
                w.probe("dropped after entering")
        elif kind == "copy":
            if cl.stack or cl.abandoned or op["to"] == c or op["to"] >= len(cfg["specs"]):
                continue
            new = w.must("copy", lambda: copy.deepcopy(cl.spec))
            new.path = w.path(file(op["to"]))
            new.autosave = cfg["autosave"][op["to"]]
            if op["to"] in clients:
                settle(w, clients[op["to"]])
            clients[op["to"]] = Client(new, str(cl.spec))
            new = None
        elif kind == "reload":
            if cl.stack or cl.abandoned:
                continue
            cl.lines.insert(0, "# by another program")
            w.write(file(c), "\n".join(cl.lines) + "\n")
            w.must("reload", cl.spec.reload)
        for other in clients.values():
            check(other, where)
    for cl in clients.values():
        settle(w, cl)
        check(cl, "the end")
        # nothing of the blocks remains: the next access reflects the document
        with cl.spec.lines() as lines:
            lines.insert(0, "# last")
        cl.lines.insert(0, "# last")
        for view in VIEWS:
            if view == "tagsub":
                continue
            out = w.call("open", lambda: (lambda cm: (cm, cm.__enter__()))(make(cl, view)))
            if not out.ok:
                raise Violation("open-failed", f"{view} in the end: {out.desc()}")
            cl.stack.append((view, *out.value))
            out = None
            check(cl, f"{view} opened in the end")
            close_one(w, cl)
            check(cl, f"{view} closed in the end")
    w.probe("identities reused", IDS.reused)


def snapshot_edit(view, v):
    """Changes to a snapshot, which must not be applied."""
    if view == "md":
        v.get("foo").body = "SNAPSHOT"
        del v[1]
    elif view == "sections":
        v.get("build").append("SNAPSHOT")
        v.get("prep").data[:] = []
    elif view == "tags":
        v.summary.value = "SNAPSHOT"
        v.license.comments.append("SNAPSHOT")
    elif view == "changelog":
        v[0].content.append("SNAPSHOT")
    elif view == "prep":
        v.setup.options.n = "SNAPSHOT"
    elif view in ("sources", "patches", "srcdup"):
        v[0].location = "SNAPSHOT"
