"""C08: source and patch lists behave like lists and match RPM's numbering."""

import copy

from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation

VIEWS = ("sources", "patches")
FLAG = {"sources": 1, "patches": 2}


# -- generation ---------------------------------------------------------------------------------


class Gen:
    def __init__(self, rng, ident):
        self.rng = rng
        self.ident = ident
        self.n = 0

    def loc(self, view):
        r = self.rng
        self.n += 1
        u = f"{self.ident}{self.n}"
        ext = "patch" if view == "patches" else r.choice(["tar.gz", "zip", "txt"])
        return r.choice(
            [
                f"f-{u}.{ext}",
                f"f-{u}.{ext}",
                f"%{{name}}-{u}.{ext}",
                f"https://example.org/%{{version}}/f-{u}.{ext}",
                f"https://example.org/x?y={u}#/g-{u}.{ext}",
                f"https://example.org/get?f={u}.{ext}",
                f"%{{vendor_url}}/{u}.{ext}",
                f"sub/dir/{u}.{ext}",
                f"/{u}.{ext}",
            ]
        )

    def tags(self, view):
        """[(line, location or None)]"""
        r = self.rng
        prefix = {"sources": "Source", "patches": "Patch"}[view]
        style = r.choice(["plain", "num", "num", "pad", "mixed", "gaps", "shuffled"])
        out = []
        n = r.choice([0, 1, 1, 2, 3, 4, 6])
        numbers = list(range(n))
        if style == "gaps":
            numbers = sorted(r.sample(range(0, 30), n))
        if style == "shuffled":
            numbers = r.sample(range(0, 12), n)
        width = r.choice([2, 4])
        used = set()
        top = -1
        for i, num in enumerate(numbers):
            numbered = style not in ("plain", "mixed") or style == "mixed" and r.random() < 0.5
            if numbered and num in used:
                num = top + 1 + r.randrange(2)
            if not numbered:
                num = top + 1
            used.add(num)
            top = max(top, num)
            name = prefix
            if numbered:
                name += f"{num:0{width}}" if style == "pad" else str(num)
            if r.random() < 0.1:
                name = r.choice([name.lower(), name.upper()])
            loc = self.loc(view)
            sep = r.choice([":", ": ", ":  ", ":\t", " : ", ":            "])
            if r.random() < 0.15:
                out.append((f"# about {loc.split('/')[-1]}", None))
            line = name + sep + loc
            t = r.random()
            if t < 0.1:
                # not there as far as RPM is concerned
                out += [("%if 0", None), (line, loc), ("%endif", None)]
                used.discard(num)
                if num == top:
                    top = max(used, default=-1)
            elif t < 0.2:
                out += [("%if 1", None), (line, loc), ("%endif", None)]
            elif t < 0.26:
                other = self.loc(view)
                out += [
                    ("%if 0%{?quux}", None), (name + sep + other, other), ("%else", None), (line, loc),
                    ("%endif", None),
                ]
            elif t < 0.3:
                out += [
                    (f"%{{!?nope:{line}}}", loc),
                ]
            else:
                out.append((line, loc))
        return out

    def lists(self, view):
        r = self.rng
        name = {"sources": "%sourcelist", "patches": "%patchlist"}[view]
        if r.random() < 0.1:
            name = {"sources": "%SourceList", "patches": "%Patchlist"}[view]
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            out.append((name, None))
            for _ in range(r.randrange(0, 4)):
                t = r.random()
                if t < 0.2:
                    out.append((r.choice(["# note", "", "   ", "#%%x"]), None))
                loc = self.loc(view)
                t = r.random()
                if t < 0.12:
                    out += [("%if 0%{?quux}", None), (loc, loc), ("%endif", None)]
                elif t < 0.24:
                    other = self.loc(view)
                    out += [("%if 1", None), (loc, loc), ("%else", None), (other, other), ("%endif", None)]
                else:
                    out.append((loc, loc))
            if r.random() < 0.6:
                out.append(("", None))
        return out

    def doc(self):
        r = self.rng
        lines = [f"Name: pkg{self.ident}", "Version: 1.0", "Release: 1", "Summary: s", "License: MIT"]
        lines.append("%global vendor_url https://v.example.org/%{version}")
        model = {}
        tags = {v: self.tags(v) for v in VIEWS}
        lists = {v: self.lists(v) for v in VIEWS}
        for v in VIEWS:
            model[v] = [loc for _, loc in tags[v] + lists[v] if loc is not None]
        order = list(VIEWS)
        if r.random() < 0.3:
            order.reverse()
        for v in order:
            lines += [line for line, _ in tags[v]]
            if r.random() < 0.4:
                lines.append(r.choice(["", "URL: https://u", "BuildRequires: x", "%dnl y"]))
        if "URL: https://u" in lines[-1:] and r.random() < 0.5:
            lines.append("")
        for v in order:
            lines += [line for line, _ in lists[v]]
        lines += ["%description", "D.", ""]
        seen = False
        out = []
        for line in lines:
            if line.startswith("URL"):
                if seen:
                    continue
                seen = True
            out.append(line)
        return "\n".join(out) + "\n", model


def gen_step(rng, g, view):
    r = rng.random()
    s = {"n": rng.randrange(1 << 12), "m": rng.randrange(1 << 12), "how": rng.randrange(1 << 12)}
    table = [
        ("append", 0.12), ("insert", 0.2), ("insert_numbered", 0.16), ("set", 0.08), ("set_slice", 0.04),
        ("del", 0.1), ("del_slice", 0.06), ("pop", 0.05), ("remove", 0.05), ("remove_numbered", 0.06),
        ("extend", 0.04), ("clear", 0.01), ("read", 0.03),
    ]
    for name, p in table:
        r -= p
        if r < 0:
            break
    s["do"] = name
    # mostly new locations, sometimes one that is there already
    s["locs"] = [g.loc(view) for _ in range(3)]
    s["dup"] = rng.random() < 0.15
    return s


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    docs = []
    gens = []
    for i in range(n):
        g = Gen(rng, "ab"[i])
        text, model = g.doc()
        docs.append({"text": text, "model": model})
        gens.append(g)
    kinds = rng.sample(["KINT", "KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "EACCES"], 3)
    rate = rng.choice([0, 0, 0.3, 0.5])
    ops = []
    for _ in range(rng.randrange(3, 12)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.04:
            op = {"op": "save", "c": c}
        elif r < 0.08:
            op = {"op": "reload", "c": c}
        elif r < 0.12:
            op = {"op": "version", "c": c, "v": f"{rng.randrange(2, 9)}.{rng.randrange(9)}"}
        elif r < 0.27:
            op = {
                "op": "add_patch", "c": c, "loc": gens[c].loc("patches"), "dup": rng.random() < 0.1,
                "number": rng.choice([None, None, None, rng.randrange(0, 40)]),
                "initial": rng.choice([0, 0, 1, 100]), "digits": rng.choice([4, 1, 2, 0]),
                "comment": rng.choice([None, None, "why", "two\nlines"]), "m": rng.randrange(1 << 12),
            }
        else:
            view = rng.choice(VIEWS)
            op = {
                "op": "edit", "c": c, "view": view, "dups": rng.random() < 0.2,
                "implicit": rng.random() < 0.2, "digits": rng.choice([1, 1, 1, 0, 2, 4]),
                "peek": rng.random() < 0.3,
                "nested": rng.choice(["", "", "", "tags", "sections", "both"]),
                "steps": [gen_step(rng, gens[c], view) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
            }
        if op["op"] in ("edit", "add_patch") and rate:
            op["faults"] = pick_faults(rng, kinds, ["tmp", "src"], rate, 12)
        ops.append(op)
    return {"config": {"docs": docs, "macros": rng.choice([[], [], [["quux", "1"]]])}, "ops": ops}


def simplify(trace):
    for i, op in enumerate(trace["ops"]):
        for j in range(len(op.get("steps", ()))):
            if len(op["steps"]) > 1:
                t = copy.deepcopy(trace)
                del t["ops"][i]["steps"][j]
                yield t
    for c, doc in enumerate(trace["config"]["docs"]):
        lines = doc["text"].split("\n")
        for i, line in enumerate(lines):
            locs = [loc for v in VIEWS for loc in doc["model"][v] if line.endswith(loc) or loc + "}" in line]
            if any(doc["text"].count(loc) > 1 for loc in locs):
                continue
            if locs or not line.strip() or line.startswith("#"):
                t = copy.deepcopy(trace)
                d = t["config"]["docs"][c]
                del lines[i]
                d["text"] = "\n".join(lines)
                lines.insert(i, line)
                for v in VIEWS:
                    d["model"][v] = [x for x in d["model"][v] if x not in locs]
                yield t


# -- running ------------------------------------------------------------------------------------


class Refused(Exception):
    pass


def open_view(spec, view, **kw):
    return spec.sources(**kw) if view == "sources" else spec.patches(**kw)


def perform(items, step, model, dups, log):
    """One step on an open view; returns the list a plain list would hold afterwards."""
    from specfile.exceptions import DuplicateSourceException

    do, n, m, how = step["do"], step["n"], step["m"], step["how"]
    model = list(model)
    size = len(model)
    loc = model[m % size] if step["dup"] and size else step["locs"][0]

    def add(fn, expect):
        if loc in model and not dups:
            try:
                fn()
            except DuplicateSourceException:
                log("duplicate refused")
                return model
            raise Violation("duplicate", f"{do}: {loc!r} was accepted though it was there already")
        fn()
        return expect()

    def where():
        """An index in a form of the caller's choice, and the position it stands for."""
        p = n % size
        return (p if how % 2 else p - size), p

    if do == "append":
        return add(lambda: items.append(loc), lambda: model + [loc])
    if do == "insert":
        p = n % (2 * size + 5) - size - 2
        if how % 2:
            p = n % (size + 1)
        want = list(model)
        want.insert(p, loc)
        return add(lambda: items.insert(p, loc), lambda: want)
    if do == "extend":
        locs = [x for x in step["locs"][: 1 + m % 3]]
        if how % 2:
            items.extend(locs)
        else:
            items += locs
        return model + locs
    if do == "insert_numbered":
        numbers = [s.number for s in items]
        num = numbers[n % size] if size and how % 2 else n % 40
        if how % 4 == 3 and size:
            num = max(numbers) + 1
        got = []

        def fn():
            got.append(items.insert_numbered(num, loc))

        def expect():
            i = got[0]
            if not 0 <= i <= size:
                raise Violation("list", f"insert_numbered() returned {i} with {size} items")
            want = list(model)
            want.insert(i, loc)
            if items[i].location != loc or items[i].number != num:
                raise Violation(
                    "number", f"insert_numbered({num}) made {items[i].location!r} number {items[i].number}"
                )
            log("inserted by number")
            step["num"] = [i, num]
            return want

        return add(fn, expect)
    if do == "remove":
        target = model[n % size] if size and how % 4 else "no-such-file"
        items.remove(target)
        return [x for x in model if x != target]
    if do == "remove_numbered":
        have = [(s.number, s.valid) for s in items]
        num = have[n % size][0] if size and how % 4 else 77
        items.remove_numbered(num)
        hits = [i for i, x in enumerate(have) if x == (num, True)] or [
            i for i, x in enumerate(have) if x[0] == num
        ]
        if hits:
            del model[hits[0]]
        return model
    if do == "read":
        got = [s.location for s in items]
        a, b = sorted([n % (size + 2), m % (size + 2)])
        part = [s.location for s in items[a:b]]
        if part != model[a:b]:
            raise Violation("list", f"[{a}:{b}] gives {part} instead of {model[a:b]}")
        if len(items) != size or got != model:
            raise Violation("list", f"view holds {got} instead of {model}")
        for x in step["locs"][:1] + model[:2]:
            if (x in items) != (x in model) or items.count(x) != model.count(x):
                raise Violation("list", f"{x!r}: wrong about whether it is there")
        return model
    if do == "clear":
        items.clear()
        return []
    if not size:
        return model
    i, p = where()
    if do == "set":
        # whether a location may be taken over from another item is not specified
        new = step["locs"][0]
        if how % 3:
            items[i].location = new
        else:
            items[i] = new
        model[p] = new
    elif do == "set_slice":
        q = min(size, p + 1 + m % 3)
        new = step["locs"][: q - p]
        items[p:q] = new
        model[p:q] = new
    elif do == "del":
        del items[i]
        del model[p]
    elif do == "pop":
        if how % 5 == 0:
            got = items.pop()
            want = model.pop()
        else:
            got = items.pop(i)
            want = model.pop(p)
        if got.location != want:
            raise Violation("list", f"pop() returned {got.location!r} instead of {want!r}")
    elif do == "del_slice":
        q = p + m % 3
        cut = [slice(p, q), slice(p, None), slice(None, p), slice(None, None, 2), slice(q, None, -1)][how % 5]
        del items[cut]
        del model[cut]
    return model


def fresh(spec, view):
    with open_view(spec, view) as items:
        return [[s.location, s.expanded_filename, s.number, s.valid] for s in items]


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
        return "other"

    K.classify_path = classify
    clients = {}
    for c, d in enumerate(cfg["docs"]):
        w.write(f"s{c}.spec", d["text"])
        macros = [tuple(m) for m in cfg["macros"]]
        spec = w.call(
            "new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"), macros=macros)
        ).value
        if spec is None:
            w.probe("document refused")
            continue
        clients[c] = {"spec": spec, "model": copy.deepcopy(d["model"]), "macros": cfg["macros"]}
        clients[c]["saved"] = copy.deepcopy(d["model"])
        check(w, c, clients[c], "after loading")
    for op in trace["ops"]:
        cl = clients.get(op["c"])
        if cl is None:
            continue
        w.ops_done += 1
        spec = cl["spec"]
        if op["op"] == "save":
            w.must("save", spec.save)
            cl["saved"] = copy.deepcopy(cl["model"])
        elif op["op"] == "reload":
            w.must("reload", spec.reload)
            cl["model"] = copy.deepcopy(cl["saved"])
        elif op["op"] == "version":
            w.must("version", lambda: setattr(spec, "version", op["v"]))
        elif op["op"] == "add_patch":
            add_patch(w, cl, op)
        else:
            edit(w, cl, op, [x["spec"] for c, x in clients.items() if c != op["c"]])
        check(w, op["c"], cl, op["op"])
        for c, other in clients.items():
            if c != op["c"] and str(other["spec"]) != other["text"]:
                raise Violation("other", f"spec {c} changed without being edited")


def settle(w, cl, out, view, after, label):
    """What the list is after a block that may have failed."""
    if out.exc is not None and not out.fired:
        if isinstance(out.exc, Violation):
            raise out.exc
        raise Violation("unexpected-exception", f"{label} failed without a fault: {out.desc()}")
    if out.exc is None:
        cl["model"][view] = after
        return True
    got = [x[0] for x in w.must("look", lambda: fresh(cl["spec"], view))]
    if got == cl["model"][view]:
        w.probe("failed edit left no trace")
        return False
    if got != after:
        raise Violation("half", f"failed {label} left {got}, neither {cl['model'][view]} nor {after}")
    cl["model"][view] = after
    return True


def edit(w, cl, op, others):
    spec, view = cl["spec"], op["view"]
    state = {"model": list(cl["model"][view]), "inside": None, "probes": []}
    kw = {
        "allow_duplicates": op["dups"], "default_to_implicit_numbering": op["implicit"],
        "default_source_number_digits": op["digits"],
    }

    def body():
        with open_view(spec, view, **kw) as items:
            for step in op["steps"]:
                step.pop("num", None)
                state["model"] = perform(items, step, state["model"], op["dups"], state["probes"].append)
                got = [s.location for s in items]
                if got != state["model"]:
                    raise Violation("list", f"after {step['do']} the view holds {got} instead of {state['model']}")
            if op.get("peek"):
                # evaluated here and now, whatever another spec has been up to
                for other in others:
                    other.expand("%{name}")
                state["inside"] = [[s.location, s.expanded_location] for s in items]

    def fn():
        if op["nested"] == "tags":
            with spec.tags():
                body()
        elif op["nested"] == "sections":
            with spec.sections():
                body()
        elif op["nested"] == "both":
            with spec.sources(), spec.patches():
                body()
        else:
            body()

    if op["nested"] == "both":
        # the same view opened again keeps the settings it was opened with first
        kw = {}
        op = dict(op, dups=False)
    label = "+".join(s["do"] for s in op["steps"])
    out = w.call(f"edit {view} {label}", fn, op.get("faults"))
    if out.ok and state["inside"]:
        w.probe("evaluated inside of the block")
        for location, expanded in state["inside"]:
            want = w.must("expand", lambda: spec.expand(location))
            if expanded != want:
                raise Violation("context", f"after {label} {location!r} expands to {expanded!r} instead of {want!r}")
    if settle(w, cl, out, view, state["model"], label):
        for s in op["steps"]:
            w.probe("step: " + s["do"])
        for p in state["probes"]:
            w.probe(p)
        last = op["steps"][-1]
        if "num" in last:
            i, num = last["num"]
            got = w.must("look", lambda: fresh(spec, view))
            if got[i][3] and got[i][2] != num:
                raise Violation("number", f"insert_numbered({num}) made {got[i][0]!r} number {got[i][2]}")


def add_patch(w, cl, op):
    from specfile.exceptions import DuplicateSourceException, SourceNumberException

    spec = cl["spec"]
    model = cl["model"]["patches"]
    before = w.must("look", lambda: fresh(spec, "patches"))
    dup = bool(op["dup"] and model)
    loc = model[op["m"] % len(model)] if dup else op["loc"]
    number = op["number"]
    highest = max((x[2] for x in before), default=-1)
    out = w.call(
        "add_patch",
        lambda: spec.add_patch(
            loc, number=number, comment=op["comment"], initial_number=op["initial"], number_digits=op["digits"]
        ),
        op.get("faults"),
    )
    after = w.must("look", lambda: fresh(spec, "patches"))
    if out.exc is not None and [x[0] for x in after] == model:
        expected = (
            isinstance(out.exc, SourceNumberException) and number is not None and number <= highest
            or isinstance(out.exc, DuplicateSourceException) and dup
        )
        if not expected and not out.fired:
            raise Violation("unexpected-exception", f"add_patch failed without a fault: {out.desc()}")
        w.probe("patch refused" if expected else "failed edit left no trace")
        return
    if out.exc is not None and not out.fired:
        raise Violation("half", f"add_patch failed ({out.desc()}) but the list is {after}")
    if dup:
        raise Violation("duplicate", f"patch {loc!r} was added again")
    if number is not None and number <= highest:
        raise Violation("number", f"patch {number} was added though there is {highest}")
    locs = [x[0] for x in after]
    if locs.count(loc) != 1 or [x for x in locs if x != loc] != model:
        raise Violation("list", f"add_patch({loc!r}) made {locs} of {model}")
    cl["model"]["patches"] = locs
    w.probe("patch added")
    i = locs.index(loc)
    if not after[i][3]:
        # it went into a branch that is not in effect
        w.probe("patch added to a false branch")
        return
    if number is not None:
        if after[i][2] != number:
            raise Violation("number", f"patch added as {number} became {after[i][2]}")
        return
    others = [x[2] for x in after if x[0] != loc and x[3]]
    if after[i][2] <= max(others, default=-1):
        raise Violation("number", f"new patch has number {after[i][2]}, others {others}")
    if before and after[i][2] > max(highest + 1, op["initial"]) or not before and after[i][2] != op["initial"]:
        raise Violation(
            "number", f"new patch has number {after[i][2]}; highest was {highest}, initial {op['initial']}"
        )
    if others != [x[2] for x in before if x[3]]:
        raise Violation("number", f"adding a patch renumbered the others: {[x[2] for x in before]} -> {others}")


def check(w, c, cl, when):
    spec = cl["spec"]
    text = cl["text"] = str(spec)
    ref = w.ref.ask(text, w.path("src"), macros=cl["macros"], want=["filenames"], key=c)
    if not ref["ok"]:
        raise Violation("refused", f"{when}: RPM refuses the resulting spec: {ref['stderr'].strip()[:300]}")
    for view in VIEWS:
        got = w.must("look", lambda: fresh(spec, view))
        locs = [x[0] for x in got]
        if locs != cl["model"][view]:
            raise Violation("list", f"{when}: {view} are {locs} instead of {cl['model'][view]}")
        have = sorted([name, num] for _, name, num, valid in got if valid)
        want = sorted([name, num] for name, num, flag in ref["filenames"] if flag == FLAG[view])
        if have != want:
            raise Violation("rpm", f"{when}: {view} are {have}, RPM says {want}")
    if str(spec) != text:
        raise Violation("other", f"{when}: looking at the lists changed the document")
