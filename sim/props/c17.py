"""C17: copies of a spec, and instances of one file, are specs of their own."""

import copy
import gc
import json

from sim import ops as catalogue
from sim.faults import pick_faults
from sim.kernel import K
from sim.props.c04 import cut, first_diff
from sim.specgen import gen_spec
from sim.world import Violation

MACROS = [["foo", "M"], ["dist", ".q"], ["foo", "N"], ["who", None]]
NEEDY = "%include %{SOURCE0}"


# -- generation ---------------------------------------------------------------------------------


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    specs = [gen_spec(rng, "ab"[i]) for i in range(n)]
    if n == 2 and rng.random() < 0.3:
        specs[1] = specs[0]
    kinds = rng.sample(["KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "EACCES"], 3)
    rate = rng.choice([0, 0, 0.2, 0.4])
    ops = []
    live = 0
    for f in range(n):
        ops.append({"op": "new", "file": f, "autosave": rng.random() < 0.3, "shared": rng.random() < 0.4})
        live += 1
    for _ in range(rng.randrange(8, 20)):
        r = rng.random()
        if r < 0.16:
            op = {"op": "copy", "i": rng.randrange(9)}
            live += 1
        elif r < 0.2:
            op = {"op": "new", "file": rng.randrange(n), "autosave": rng.random() < 0.3, "shared": rng.random() < 0.4}
            live += 1
        elif r < 0.26:
            op = {"op": "drop", "i": rng.randrange(9), "gc": rng.random() < 0.5}
        elif r < 0.36:
            op = {"op": "config", "i": rng.randrange(9), "what": rng.choice(
                ["macro", "macro", "macro", "autosave", "sourcedir", "path", "force", "app"]
            ), "macro": rng.choice(MACROS), "n": rng.randrange(9)}
        elif r < 0.46:
            op = {"op": "part", "i": rng.randrange(9), "j": rng.randrange(9), "what": rng.choice(
                ["section", "tag", "macro", "entry", "comment", "prep", "source", "patch"]
            ), "whole": rng.random() < 0.25, "a": rng.randrange(50), "b": rng.randrange(50)}
        elif r < 0.58:
            op = {"op": "views", "i": rng.randrange(9), "j": rng.randrange(9), "what": rng.choice(
                ["lines", "sections", "tags", "macro_definitions", "changelog", "sources"]
            ), "how": rng.randrange(8), "copy": rng.random() < 0.4}
        elif r < 0.66:
            op = {"op": "do", "i": rng.randrange(9), "do": {"do": rng.choice(["w_save", "w_reload"])}}
        elif r < 0.85:
            op = {"op": "do", "i": rng.randrange(9), "do": catalogue.gen_write(rng)}
        else:
            op = {"op": "do", "i": rng.randrange(9), "do": catalogue.gen_read(rng)}
        if op["op"] in ("do", "copy", "new") and rate:
            op["faults"] = pick_faults(rng, kinds, ["tmp", "src", "spec"], rate, 8)
        ops.append(op)
        if rng.random() < 0.12:
            # the same to all of them, one after the other
            do = catalogue.gen_read(rng) if rng.random() < 0.5 else catalogue.gen_write(rng)
            ops += [{"op": "do", "i": i, "do": do} for i in range(min(live, 4))]
    return {"config": {"specs": specs}, "ops": ops}


# -- running ------------------------------------------------------------------------------------


class Client:
    def __init__(self, spec, path):
        self.spec = spec
        self.path = path
        self.note()

    def note(self):
        self.state = state_of(self.spec)

    @property
    def text(self):
        return self.state["text"]


def state_of(spec):
    return {
        "text": str(spec),
        "path": str(spec.path),
        "sourcedir": str(spec.sourcedir),
        "autosave": spec.autosave,
        "macros": [list(m) for m in spec.macros],
        "force": spec.force_parse,
    }


def differ(a, b):
    for k in b:
        if a[k] != b[k]:
            return first_diff(a[k], b[k]) if k == "text" else f"{k} is {a[k]!r} instead of {b[k]!r}"
    return None


class Run:
    def __init__(self, w, trace):
        self.w = w
        self.cfg = trace["config"]
        self.clients = []
        self.files = {}
        self.macros = [("dist", ".app")]

    def disk(self):
        return {f: self.w.read(f).decode("utf8", "surrogateescape") for f in self.files}

    def unaffected(self, what, but=(), files=()):
        """Nothing but the clients in `but` and the files in `files` has changed."""
        for c in self.clients:
            d = None if c in but else differ(state_of(c.spec), c.state)
            if d:
                raise Violation("other-instance", f"{what} is visible in another instance: {d}")
        for f, text in self.disk().items():
            if f not in files and text != self.files[f]:
                raise Violation("other-file", f"{what} changed {f}: {first_diff(text, self.files[f])}")
            self.files[f] = text

    def pick(self, i):
        return self.clients[i % len(self.clients)] if self.clients else None

    # -- operations ----------------------------------------------------------------------------
    def new(self, op):
        from specfile import Specfile

        w = self.w
        if op["file"] >= len(self.cfg["specs"]):
            return
        name = f"s{op['file']}.spec"
        text = self.files[name]
        out = w.call(
            "new",
            # the application may use one list for all
            lambda: Specfile(
                w.path(name), sourcedir=w.path("src"), autosave=op["autosave"],
                macros=self.macros if op.get("shared") else None,
            ),
            op.get("faults"),
        )
        self.unaffected("loading a spec")
        if out.ok:
            if op.get("shared") and list(out.value.macros) != self.macros:
                raise Violation("load", f"macros are {out.value.macros}, not {self.macros}")
            if str(out.value) != text:
                raise Violation("load", f"loaded text differs from the file: {first_diff(str(out.value), text)}")
            self.clients.append(Client(out.value, name))
        out = None

    def copy(self, op):
        w = self.w
        c = self.pick(op["i"])
        if c is None or len(self.clients) >= 6:
            return
        out = w.call("copy", lambda: copy.deepcopy(c.spec), op.get("faults"))
        self.unaffected("taking a copy")
        if not out.ok:
            if not out.fired:
                raise Violation("copy", f"copying failed: {out.desc()}")
            return
        new = Client(out.value, c.path)
        d = differ(new.state, c.state)
        if d:
            raise Violation("copy", f"the copy differs: {d}")
        if new.spec is c.spec or new.spec != c.spec:
            raise Violation("copy", "the copy is the original" if new.spec is c.spec else "the copy is not equal")
        self.clients.append(new)
        w.probe("copies")

    def drop(self, op):
        c = self.pick(op["i"])
        if c is None or len(self.clients) < 2:
            return
        self.clients.remove(c)
        c.spec = None
        c = None
        if op["gc"]:
            gc.collect()
        self.unaffected("discarding a spec")

    def config(self, op):
        c = self.pick(op["i"])
        if c is None:
            return
        spec = c.spec
        what = op["what"]
        want = dict(c.state)
        if what == "app":
            # the application goes on using its own list
            self.macros.append(tuple(op["macro"]))
            self.unaffected("a change of the list of macros given once")
            return
        if what == "macro":
            m = tuple(op["macro"])
            if m in spec.macros:
                spec.macros.remove(m)
                want["macros"] = [x for x in want["macros"] if tuple(x) != m]
            else:
                spec.macros.append(m)
                want["macros"] = want["macros"] + [list(m)]
        elif what == "autosave":
            spec.autosave = want["autosave"] = not want["autosave"]
        elif what == "force":
            spec.force_parse = want["force"] = not want["force"]
        elif what == "sourcedir":
            spec.sourcedir = want["sourcedir"] = self.w.path(["src", "src2"][op["n"] % 2])
        else:
            c.path = f"o{op['n'] % 2}.spec"
            spec.path = want["path"] = self.w.path(c.path)
        d = differ(state_of(spec), want)
        if d:
            raise Violation("config", f"setting {what}: {d}")
        c.note()
        self.unaffected(f"setting {what}")

    def do(self, op):
        """One operation, compared with the same one on a fresh instance in a fresh process."""
        w = self.w
        c = self.pick(op["i"])
        if c is None:
            return
        spec, do = c.spec, op["do"]
        before = c.state
        want = w.ref.twin(
            before["text"], [do], before["sourcedir"], disk=self.files[c.path],
            macros=before["macros"], autosave=before["autosave"], force=before["force"],
        )[0]
        out = w.call(do["do"], lambda: catalogue.apply(spec, do), op.get("faults"))
        after = state_of(spec)
        disk = self.disk()[c.path]
        what = f"{do} ({[f[:2] for f in out.fired]})"
        if out.ok or not out.fired:
            exc = None if out.ok else type(out.exc).__name__
            if exc != want["exc"]:
                raise Violation("outcome", f"{what}: {out.desc()}, a fresh instance gives {want['exc']}")
            d = differ(after, dict(before, text=want["text"]))
            if d:
                raise Violation("result", f"{what}: {d}")
            if disk != want["disk"]:
                raise Violation("result", f"{what}: in the file {first_diff(disk, want['disk'])}")
            if out.ok:
                value = json.loads(
                    json.dumps(out.value).replace(json.dumps(str(spec.path))[1:-1], "@SPEC@")
                )
                if value != want["value"]:
                    raise Violation("result", f"{what}: returned {cut(value)} instead of {cut(want['value'])}")
        c.note()
        # an interrupted save may have got anywhere
        self.unaffected(what, [c], [c.path])

    def part(self, op):
        """A part copied from one spec into another, and edited there."""
        c, d = self.pick(op["i"]), self.pick(op["j"])
        if c is None:
            return
        w = self.w
        a, b, what = op["a"], op["b"], op["what"]
        done = {}

        def put(view, pick=None):
            with getattr(c.spec, view)() as x, getattr(d.spec, view)() as y:
                if x is None or y is None:
                    return
                done["views"] = (x, y)
                if x is not None and (x is y) != (c is d):
                    raise Violation("views", f"{view} of two specs are shared: {x is y}, same spec: {c is d}")
                x, y = (x.macros, y.macros) if view == "prep" else (x, y)
                if op.get("whole") and view not in ("sources", "patches"):
                    # a copy of all of it is just that
                    z = copy.deepcopy(x)
                    if z != x:
                        raise Violation("part", f"copy of {view} is {z!r} instead of {x!r}")
                    if len(z):
                        if b % 2 == 0:
                            edit(z[a % len(z)], what, a)
                        if a % 3 == 0:
                            z.pop(b % len(z))
                        elif a % 3 == 1:
                            del z[-1:]
                        else:
                            z.clear()
                    return
                if what == "comment":
                    if not len(x) or not len(y):
                        return
                    old = list(x[a % len(x)].comments.raw)
                    new = copy.deepcopy(x[a % len(x)].comments)
                    new.append(f"moved {a}")
                    if list(x[a % len(x)].comments.raw) != old:
                        raise Violation("part", f"editing copied comments changed the original {old}")
                    y[b % len(y)].comments = new
                    done["lines"] = [f"# moved {a}"]
                    return
                if not len(x):
                    return
                item = x[a % len(x)]
                if what == "section" and item.normalized_name == "package":
                    return
                raw = raw_of(item, what)
                new = copy.deepcopy(item)
                if raw_of(new, what) != raw:
                    raise Violation("part", f"copy of {what} {raw} is {raw_of(new, what)}")
                edit(new, what, a)
                if raw_of(item, what) != raw:
                    raise Violation("part", f"editing a copy of {what} {raw} changed the original")
                if what in ("tag", "prep", "source", "patch"):
                    # inside of conditions or at the end of a list it may mean anything
                    return
                y.append(new) if what != "entry" else y.insert(0, new)
                done["new"] = raw_of(new, what)

        view = {
            "section": "sections", "tag": "tags", "macro": "macro_definitions", "entry": "changelog",
            "comment": "tags", "prep": "prep", "source": "sources", "patch": "patches",
        }[what]
        out = w.call("part " + what, lambda: put(view))
        done.pop("views", None)
        if out.exc is not None:
            if isinstance(out.exc, Violation):
                raise out.exc
            # a document that can't be parsed
            w.probe("part refused")
            for x in {id(c): c, id(d): d}.values():
                diff = differ(state_of(x.spec), x.state)
                if diff:
                    raise Violation("part", f"failed ({out.desc()}), but {diff}")
            self.unaffected("moving", [], [x.path for x in (c, d) if x.spec.autosave])
            return
        if done and c is not d and not d.spec.autosave:
            w.probe("parts moved")
        before, after = d.text, str(d.spec)
        lines = done.get("new") or done.get("lines")
        if not lines:
            if after != before:
                raise Violation("part", f"nothing was moved, but {first_diff(after, before)}")
        else:
            rest = list(after.split("\n"))
            for line in lines:
                if line not in rest:
                    raise Violation("part", f"moved {what} {lines} is not in the document")
        d.note()
        touched = [d.path] if d.spec.autosave else []
        if c.spec.autosave:
            touched.append(c.path)
        self.unaffected(f"moving a {what}", [d], touched)

    def views(self, op):
        """Views of two specs, open at the same time, possibly with a copy taken meanwhile."""
        c, d = self.pick(op["i"]), self.pick(op["j"])
        if c is None:
            return
        w = self.w
        what, how = op["what"], op["how"]
        stamp = f"stamp{how}"
        first, second = (c, d) if how % 2 else (d, c)
        box = {}

        def mark(x, text):
            catalogue.mark(x, what, text)

        def fn():
            with getattr(c.spec, what)() as x:
                with getattr(d.spec, what)() as y:
                    if x is not None and (x is y) != (c is d):
                        raise Violation("views", f"{what} of two specs are shared: {x is y}, same spec: {c is d}")
                    mark(x if first is c else y, stamp)
                    if op["copy"]:
                        # has the document as written back so far
                        box["copy"] = copy.deepcopy(c.spec)
                        with getattr(box["copy"], what)() as z:
                            if z is not None and (z is x or z is y):
                                raise Violation("views", f"{what} of a copy are those of the original")
                    if how >= 4 and c is not d:
                        mark(y if first is c else x, stamp + "b")

        twins = {}
        marks = [(first, stamp)]
        if how >= 4 and c is not d:
            marks.append((second, stamp + "b"))
        for q, text in marks:
            twins[id(q)] = w.ref.twin(
                q.text, [{"do": "w_mark", "view": what, "text": text}], q.state["sourcedir"],
                disk=self.files[q.path], macros=q.state["macros"], force=q.state["force"],
            )[0]
        out = w.call("views " + what, fn)
        if out.exc is not None:
            if isinstance(out.exc, Violation):
                raise out.exc
            w.probe("views refused")
            for x in {id(c): c, id(d): d}.values():
                x.note()
            self.unaffected(f"failing {what}", [c, d], [x.path for x in (c, d) if x.spec.autosave])
            return
        w.probe("views of two specs")
        for q in {id(c): c, id(d): d}.values():
            t = twins.get(id(q))
            want = t["text"] if t and t["exc"] is None else q.text
            diff = differ(state_of(q.spec), dict(q.state, text=want))
            if diff:
                raise Violation("views", f"{op}: {diff}")
            q.note()
        if "copy" in box:
            got = Client(box.pop("copy"), c.path)
            if len(self.clients) < 6:
                self.clients.append(got)
            # whatever it holds, it is a document of its own from now on
        got = None
        self.unaffected(f"{op}", [], [x.path for x in (c, d) if x.spec.autosave])


def raw_of(item, what):
    if what == "section":
        return [str(item.id)] + list(item)
    if what in ("source", "patch"):
        return [item.location, *item.comments.raw]
    if what in ("tag", "comment"):
        return [item.name, item.value, *item.comments.raw]
    if what == "macro":
        return item.get_raw_data()
    if what == "entry":
        return [item.header] + list(item.content)
    return [item.name + " " + str(item.options)]


def edit(item, what, n):
    if what == "section":
        item.insert(0, f"# moved {n}")
        item.id = ["build", "check", "install"][n % 3]
        item[:] = [x for x in item if not x.startswith("%")]
    elif what in ("source", "patch"):
        item.location = f"moved{n}"
        item.comments.append(f"moved {n}")
    elif what in ("tag", "comment"):
        item.value = f"moved{n}"
        item.comments.append(f"moved {n}")
    elif what == "macro":
        item.body = f"moved{n}"
        item.name = f"moved{n}"
        item.commented_out = bool(n % 2)
    elif what == "entry":
        item.content.append(f"- moved {n}")
    else:
        item.options[next(iter(item.options.optstring))] = n


def run(w, trace):
    r = Run(w, trace)

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
            if p.endswith(".spec"):
                return "spec"
        return "other"

    K.classify_path = classify
    K.inside += 1
    try:
        import os

        os.mkdir(w.path("src2"))
    finally:
        K.inside -= 1
    for i, text in enumerate(trace["config"]["specs"]):
        w.write(f"s{i}.spec", text)
        r.files[f"s{i}.spec"] = text
    for i in range(2):
        w.write(f"o{i}.spec", "other\n")
        r.files[f"o{i}.spec"] = "other\n"
    for op in trace["ops"]:
        w.ops_done += 1
        getattr(r, op["op"])(op)
