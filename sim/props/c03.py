"""C03: a spec is evaluated in its own context, never in another spec's."""

import copy
import gc
import re

from sim.faults import pick_faults
from sim.kernel import IDS, K
from sim.specgen import gen_spec
from sim.world import Violation

EXPRS = [
    "%{name}",
    "%{name}-%{version}-%{release}",
    "%{who}",
    "%{foo}",
    "%{?flag}",
    "%{?flag:set}%{!?flag:unset}",
    "%{num}",
    "%{SOURCE0}",
    "%{S:0}",
    "%{PATCH0}",
    "%{?PATCH1}",
    "%{sources}",
    "%{patches}",
    "%{lua:for i, s in ipairs(sources) do print(s) end}",
    "%{_sourcedir}",
    "%{?dist}",
    "%{with feat}",
    "%{?only_a}|%{?only_b}|%{?only_c}",
    "%{only_a}",
    "%{expr:%{num}+1}",
    "%(echo sh-%{who})",
    "%{url}",
    "%{summary}",
    "%{?epoch}",
    "%{?xtra}%{?nope}",
    "%{opt:x}",
    "%{?inner}",
    "%{?extra1}-%{?extra2}",
    "plain 100%%",
    "%{?with_feat}",
    "%{_target_cpu}",
]
BREAKS = ["%if 1", "Bogus line", "%endif", "%{error:broken}", "Name: second", "%include /nope"]
QUERIES = ["expand", "expand", "expand", "active", "props", "tagsx", "srcx", "valid", "mdvalid"]
QUERIES += ["parsed", "header", "psections", "valid", "tagsx"]
MACROS = [
    ["flag", "1"],
    ["flag", "0"],
    ["flag", None],
    ["dist", ".xy"],
    ["dist", None],
    ["extra1", "E1"],
    ["extra2", "%{who}"],
    ["who", "outer"],
    ["xtra", "1"],
    ["nope", "1"],
    ["_with_feat", "1"],
    ["_without_feat", "1"],
]


BASE = {
    "q": 50,
    "setmacro": 7,
    "settag": 4,
    "line": 4,
    "macros": 7,
    "sourcedir": 3,
    "break": 4,
    "reload": 4,
    "copy": 4,
    "drop": 4,
    "gc": 2,
    "new": 3,
    "open": 2,
    "close": 2,
}
PROFILES = [
    BASE,
    BASE,
    # instances come and go
    {"q": 40, "copy": 20, "drop": 16, "gc": 5, "new": 8, "setmacro": 3, "reload": 3, "break": 2},
    # configuration changes
    {"q": 45, "macros": 25, "sourcedir": 10, "setmacro": 8, "copy": 4, "open": 4, "break": 3},
    # views left open while others work
    {"q": 50, "open": 15, "close": 7, "macros": 8, "new": 4, "copy": 4, "drop": 4, "break": 2},
]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    specs = [gen_spec(rng, "abc"[i]) for i in range(n)]
    alts = [gen_spec(rng, "abc"[i]) for i in range(n)]
    macros = [
        rng.sample(MACROS, rng.randrange(1, 3)) if rng.random() < 0.3 else [] for _ in range(n)
    ]
    faulty = rng.random() < 0.55
    kinds = rng.sample(["KINT", "KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "TORN"], 3)
    broken_run = rng.random() < 0.4
    ops = []
    for c in range(n):
        ops.append({"op": "new", "c": c})
    last_q = None
    weights = dict(rng.choice(PROFILES))
    if not broken_run:
        weights["break"] = 0
    kinds_of_ops = list(weights)
    for _ in range(rng.randrange(5, 16)):
        c = rng.randrange(n)
        if weights.get("copy", 0) > 10 and rng.random() < 0.5:
            c = 3
        what = rng.choices(kinds_of_ops, [weights[k] for k in kinds_of_ops])[0]
        if what == "q":
            op = query(rng, c, specs + alts)
            last_q = op
        elif what == "setmacro":
            op = {"op": "setmacro", "c": c, "name": rng.choice(["foo", "num", "flag", "who"])}
            op["value"] = rng.choice(["1", "2", "0", "7"])
        elif what == "settag":
            op = {"op": "settag", "c": c, "name": rng.choice(["version", "summary", "release"])}
            op["value"] = rng.choice(["3", "4.%{num}", "5%{?dist}", "6.%{who}"])
        elif what == "line":
            op = {"op": "line", "c": c, "at": rng.randrange(40), "text": "# note %%{foo}"}
        elif what == "macros":
            op = {"op": "macros", "c": c, "what": rng.choice(["add", "pop", "clear", "set0"])}
            op["macro"] = rng.choice(MACROS)
        elif what == "sourcedir":
            op = {"op": "sourcedir", "c": c, "to": rng.choice(["src", "src2"])}
        elif what == "break":
            op = {"op": "break", "c": c, "text": rng.choice(BREAKS)}
        elif what == "reload":
            op = {"op": "reload", "c": c, "alt": rng.random() < 0.5}
        elif what == "copy":
            op = {"op": "copy", "c": c, "to": rng.choice([3, 3, rng.randrange(4)])}
            if c == 3:
                op["c"] = rng.randrange(n)
        elif what == "drop":
            op = {"op": "drop", "c": c, "cycle": rng.random() < 0.4}
        elif what == "gc":
            op = {"op": "gc"}
        elif what == "new":
            op = {"op": "new", "c": c}
        elif what == "open":
            op = {"op": "open", "c": c, "view": rng.choice(["tags", "sources", "sections"])}
        else:
            op = {"op": "close", "c": c}
        if op["op"] in ("q", "new", "setmacro", "settag"):
            if faulty:
                op["faults"] = pick_faults(rng, kinds, ["tmp", "src"], 0.45, 10)
            if rng.random() < 0.15:
                op.setdefault("faults", []).append({"kind": "GC", "k": rng.randrange(0, 60)})
        ops.append(op)
        if op.get("faults") and rng.random() < 0.6:
            # the same client again, without the fault
            again = dict(op) if op["op"] == "q" else query(rng, c, specs + alts)
            again.pop("faults", None)
            ops.append(again)
        elif last_q and rng.random() < 0.2:
            ops.append({k: v for k, v in last_q.items() if k != "faults"})
    return {"config": {"specs": specs, "alts": alts, "macros": macros}, "ops": ops}


def names_in(text):
    out = []
    for m in re.finditer(r"\b(inline_|late|m_|ml_|f_|only_)\w+", text):
        name = m.group(0)
        out.append("with_" + name if name.startswith("late") else name)
    return out


def query(rng, c, texts):
    q = rng.choice(QUERIES)
    op = {"op": "q", "c": c, "q": q}
    if q == "expand":
        op["expr"] = rng.choice(EXPRS)
        names = names_in(rng.choice(texts))
        if names and rng.random() < 0.4:
            op["expr"] = rng.choice(["%%{?%s:1}", "%%{?%s:1}", "%%{%s}"]) % rng.choice(names)
        if rng.random() < 0.3:
            op["extra"] = rng.sample(MACROS, rng.randrange(1, 3))
    return op


TAG = re.compile(r"^(?P<name>[A-Za-z]+)(?P<num>\d*)\s*:\s*(?P<value>.*?)\s*$")
SECTION = re.compile(r"^%(description|package|prep|build|install|files|changelog|check)\b")
MACRODEF = re.compile(r"^\s*%(global|define)\s+(?P<name>\w+(\(.*?\))?)\s+(?P<body>.*)$")


def preamble(text):
    """(line index, line) of the preamble, without the bodies of macro definitions."""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        line = lines[i]
        if SECTION.match(line):
            break
        out.append((i, line))
        if MACRODEF.match(line):
            while lines[i].endswith("\\"):
                i += 1
        i += 1
    return out


def tag_lines(text):
    out = []
    for i, line in preamble(text):
        m = TAG.match(line)
        if m and not line.startswith("%"):
            out.append((i, m.group("name"), m.group("num"), m.group("value")))
    return out


def md_lines(text):
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = MACRODEF.match(lines[i])
        if m:
            out.append((i, m.group("name")))
            while lines[i].endswith("\\"):
                i += 1
        i += 1
    return out


def with_marks(text, indexes):
    lines = text.split("\n")
    out = []
    marks = set(indexes)
    for i, line in enumerate(lines):
        if i in marks:
            out.append(f"%global mark__{i} 1")
        out.append(line)
    return "\n".join(out)


class Client:
    def __init__(self, spec, c):
        self.spec = spec
        self.c = c
        self.stack = []

    def unwind(self):
        while self.stack:
            cm, _ = self.stack.pop()
            cm.__exit__(None, None, None)


def run(w, trace):
    import os

    from specfile import Specfile
    from specfile.exceptions import RPMException

    cfg = trace["config"]
    os.mkdir(w.path("src2"))
    clients = {}
    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)
    K.classify_path = lambda p: (
        "tmp"
        if isinstance(p, str) and p.startswith(w.path("tmp"))
        else "src"
        if isinstance(p, str) and p.startswith(w.path("src"))
        else "other"
    )

    def ref(cl, extra=None, text=None, **kw):
        spec = cl.spec
        return w.ref.ask(
            str(spec) if text is None else text,
            spec.sourcedir,
            macros=[list(m) for m in spec.macros] + [list(m) for m in extra or []],
            materialise=True,
            key="",
            **kw,
        )

    for op in trace["ops"]:
        kind = op["op"]
        if kind == "gc":
            gc.collect()
            continue
        c = op["c"]
        if kind == "new":
            if c >= len(cfg["specs"]):
                continue
            w.ops_done += 1
            macros = [tuple(m) for m in cfg["macros"][c]] if c < len(cfg["macros"]) else []
            if c in clients:
                try:
                    clients[c].unwind()
                except Exception:
                    pass
            out = w.call(
                "new",
                lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"), macros=macros),
                op.get("faults"),
            )
            if out.ok:
                clients[c] = Client(out.value, c)
            out = None
            continue
        if c not in clients:
            continue
        cl = clients[c]
        spec = cl.spec
        if kind == "drop":
            del clients[c]
            w.call("unwind", cl.unwind)
            if op["cycle"]:
                spec.itself = spec
            spec = None
            cl = None
            w.probe("spec dropped")
            continue
        if kind == "macros":
            what = op["what"]
            m = tuple(op["macro"])
            if what == "add":
                spec.macros.append(m)
            elif what == "pop" and spec.macros:
                spec.macros.pop()
            elif what == "clear":
                spec.macros.clear()
            elif what == "set0" and spec.macros:
                spec.macros[0] = m
            continue
        if kind == "sourcedir":
            spec.sourcedir = w.path(op["to"])
            continue
        if kind == "open":
            if len(cl.stack) < 2:
                view = op["view"]

                def enter():
                    cm = getattr(spec, view)()
                    return cm, cm.__enter__()

                out = w.call("open", enter)
                if out.ok:
                    cl.stack.append(out.value)
                elif ref(cl)["ok"]:
                    raise Violation("unexpected-exception", f"opening {view}: {out.desc()}")
                out = None
            continue
        if kind == "close":
            w.call("close", cl.unwind)
            continue
        if kind == "copy":
            new = w.must("copy", lambda: copy.deepcopy(spec))
            old = clients.get(op["to"])
            if old is not None and old is not cl:
                w.call("unwind", old.unwind)
            if old is not cl:
                clients[op["to"]] = Client(new, c)
            new = old = None
            continue
        if kind in ("setmacro", "settag", "line", "break", "reload"):
            if cl.stack:
                continue
            w.ops_done += 1
            mutate(w, cfg, cl, op)
            continue
        if kind == "q":
            w.ops_done += 1
            ask(w, cl, op, ref, RPMException)
    w.probe("identities reused", IDS.reused)


def mutate(w, cfg, cl, op):
    spec = cl.spec
    kind = op["op"]
    if kind == "setmacro":

        def do():
            with spec.macro_definitions() as mds:
                if op["name"] in mds:
                    getattr(mds, op["name"]).body = op["value"]

    elif kind == "settag":

        def do():
            with spec.tags() as tags:
                getattr(tags, op["name"]).value = op["value"]

    elif kind == "line":

        def do():
            with spec.lines() as lines:
                spots = [i for i, _ in preamble("\n".join(lines))]
                lines.insert(spots[op["at"] % len(spots)] if spots else 0, op["text"])

    elif kind == "break":

        def do():
            with spec.lines() as lines:
                if op["text"] in lines:
                    lines.remove(op["text"])
                else:
                    lines.insert(1, op["text"])

    elif kind == "reload":
        if op["alt"] and cl.c < len(cfg["alts"]):
            w.write(f"s{cl.c}.spec", cfg["alts"][cl.c])
        do = spec.reload
    # failures of edits are the business of other properties
    w.call(kind, do, op.get("faults"))


RESERVED = {"valid", "mdvalid"}


def ask(w, cl, op, ref, RPMException):
    spec = cl.spec
    q = op["q"]
    text = str(spec)
    extra = [tuple(m) for m in op["extra"]] if op.get("extra") else None
    tags = tag_lines(text)
    mds = md_lines(text)

    def raw(name):
        for _, n, num, value in tags:
            if n.lower() == name:
                return value
        return None

    if q == "expand":

        def do():
            return spec.expand(op["expr"], extra_macros=extra)

    elif q == "active":
        names = ["who", "foo", "num", "flag", "only_a", "only_b", "only_c", "xtra", "extra1"]

        def do():
            active = {m.name: m.body for m in spec.get_active_macros()}
            return [active.get(n) for n in names]

    elif q == "props":

        def do():
            return [
                spec.expanded_name,
                spec.expanded_version,
                spec.expanded_raw_release,
                spec.expanded_summary,
                spec.expanded_url,
                spec.expanded_release,
                spec.expanded_license,
                spec.expanded_epoch,
            ]

    elif q == "tagsx":

        def do():
            if cl.stack and type(cl.stack[-1][1]).__name__ == "Tags":
                return [[t.name.lower(), t.expanded_value] for t in cl.stack[-1][1]]
            with spec.tags() as t:
                return [[x.name.lower(), x.expanded_value] for x in t]

    elif q == "srcx":

        def do():
            out = []
            with spec.sources() as s, spec.patches() as p:
                for x in s:
                    out.append(
                        ["s", x.number, x.expanded_location, x.expanded_filename, x.valid]
                    )
                for x in p:
                    out.append(
                        ["p", x.number, x.expanded_location, x.expanded_filename, x.valid]
                    )
            return out

    elif q == "valid":

        def do():
            with spec.tags() as t:
                return [[x.name.lower(), bool(x.valid)] for x in t]

    elif q == "mdvalid":

        def do():
            with spec.macro_definitions() as m:
                return [[x.name, bool(x.valid)] for x in m]

    elif q == "parsed":

        def do():
            return spec.rpm_spec.parsed

    elif q == "header":

        def do():
            h = spec.rpm_spec.sourceHeader
            return [h["name"], h["version"], h["release"], h["epoch"], h["summary"]]

    elif q == "psections":

        def do():
            return "\n".join(spec.parsed_sections.get_raw_data())

    if q in ("valid", "srcx", "mdvalid") and cl.stack:
        # computed when the view was opened
        return
    out = w.call(f"q {q}", do, op.get("faults"))
    if str(spec) != text:
        raise Violation("query-changed", f"query {q} changed the document")
    base = ref(cl, extra)
    if not base["ok"]:
        w.probe("query on a broken spec")
        # views that need no parse may still work; an expansion may not
        if out.ok and q in ("expand", "active", "parsed", "header", "psections", "props"):
            raise Violation(
                "accepted", f"{q} gave {out.value!r} although RPM refuses the spec"
            )
        if (
            not out.ok
            and not out.fired
            and not isinstance(out.exc, RPMException)
            and q in ("expand", "active", "parsed", "header", "psections")
        ):
            raise Violation("wrong-exception", f"{q} on a broken spec raised {out.desc()}")
        return
    want = expected(op, q, text, tags, mds, ref, cl, extra, raw)
    if not out.ok:
        if out.fired:
            w.probe("query failed by a fault")
            return
        if isinstance(want, dict) and "error" in want and isinstance(out.exc, RPMException):
            w.probe("expansion RPM refuses")
            return
        if isinstance(want, list) and any(
            isinstance(x, dict) and "error" in x for x in flatten(want)
        ):
            return
        raise Violation("refused", f"{q} {op.get('expr', '')} raised {out.desc()}, want {want!r}")
    got = out.value
    w.log(repr(got))
    if isinstance(want, dict) or (
        isinstance(want, list) and any(isinstance(x, dict) for x in flatten(want))
    ):
        raise Violation("accepted", f"{q} {op.get('expr', '')} gave {got!r}, RPM refuses it")
    if got != want:
        what = op.get("expr", "")
        if isinstance(got, list):
            if q in ("valid", "mdvalid", "tagsx", "srcx"):
                if [x[0] for x in got] != [x[0] for x in want]:
                    raise Violation(f"items-{q}", f"{q}: {got!r}, want {want!r}")
            pairs = [(a, b) for a, b in zip(got, want) if a != b]
            detail = f"{pairs[:4]} (lengths {len(got)}, {len(want)})"
        else:
            detail = f"{got!r} instead of {want!r}"
        raise Violation(
            f"differs-{q}", f"{q} {what} extra={op.get('extra')}: (got, RPM's) {detail}"
        )


def flatten(x):
    for i in x:
        if isinstance(i, list):
            yield from flatten(i)
        else:
            yield i


def expected(op, q, text, tags, mds, ref, cl, extra, raw):
    if q == "expand":
        return ref(cl, extra, expand=[op["expr"]])["expand"][0]
    if q == "active":
        names = ["who", "foo", "num", "flag", "only_a", "only_b", "only_c", "xtra", "extra1"]
        r = ref(cl, expand=[f"%{{?{n}:1}}" for n in names] + [f"%{{?{n}}}" for n in names])
        k = len(names)
        return [r["expand"][k + i] if r["expand"][i] == "1" else None for i in range(k)]
    if q == "props":
        exprs = [raw(n) for n in ("name", "version", "release", "summary", "url")]
        r = ref(cl, expand=exprs)["expand"]
        rel = raw("release").replace("%{?dist}", "")
        rest = ref(cl, expand=[raw("license"), raw("epoch") or "0"])["expand"]
        if raw("epoch") is None:
            rest[1] = None
        return r + [ref(cl, [("dist", "")], expand=[rel])["expand"][0]] + rest
    if q == "tagsx":
        r = ref(cl, expand=[t[3] for t in tags])["expand"]
        return [[t[1].lower() + t[2], v] for t, v in zip(tags, r)]
    if q == "srcx":
        ss = [t for t in tags if t[1].lower() == "source"]
        ps = [t for t in tags if t[1].lower() == "patch"]
        r = ref(cl, expand=[t[3] for t in ss + ps])["expand"]
        v = valid(ref, cl, text, [t[0] for t in ss + ps])
        out = []
        for t, value in zip(ss + ps, r):
            out.append(
                [t[1].lower()[0], int(t[2]), value, value.rsplit("/", 1)[-1], v[t[0]]]
            )
        return out
    if q == "valid":
        v = valid(ref, cl, text, [t[0] for t in tags])
        return [[t[1].lower() + t[2], v[t[0]]] for t in tags]
    if q == "mdvalid":
        v = valid(ref, cl, text, [m[0] for m in mds])
        return [[m[1], v[m[0]]] for m in mds]
    if q == "parsed":
        return ref(cl, want=["parsed"])["parsed"]
    if q == "psections":
        p = ref(cl, want=["parsed"])["parsed"]
        return p[:-1] if p.endswith("\n") else p
    if q == "header":
        h = ref(cl, want=["header"])["header"]
        return [h["name"], h["version"], h["release"], h["epoch"], h["summary"]]


def valid(ref, cl, text, indexes):
    marked = with_marks(text, indexes)
    r = ref(cl, text=marked, expand=[f"%{{?mark__{i}}}" for i in indexes])
    return {i: e == "1" for i, e in zip(indexes, r["expand"])}
