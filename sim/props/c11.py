"""C11: version and release updates take effect exactly and converge."""

import re

from sim import ops as api
from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation

PROTECTED = ".*name"
DEF = re.compile(r"^\s*(?:#\s*|%dnl\s*)?%?(global|define)\s+(\w+)(\([^)]*\))?\s+(.*)$")
TAG = re.compile(r"^(\w+)\s*:\s*(.*)$")
REF = re.compile(r"%\{?[?!]*(\w+)")


# -- generation ---------------------------------------------------------------------------------


class Doc:
    """A document whose version is spread over macros."""

    def __init__(self, rng, ident):
        self.rng = r = rng
        self.lines = []
        self.names = []
        kw = lambda: r.choice(["%global", "%global", "%define"])  # noqa: E731
        num = lambda: str(r.choice([0, 1, 2, 3, 10, 12]))  # noqa: E731
        parts = []

        plain = r.random() < 0.3

        def define(name, body, style=None):
            style = "plain" if plain else style or r.choice(["plain"] * 8 + ["if1", "else", "twice", "wide", "old"])
            k = kw()
            line = f"{k} {name} {body}"
            if style == "wide":
                line = f"{k}   {name}\t{body}"
            if style == "if1":
                self.lines += ["%if 1", line, "%endif"]
            elif style == "else":
                self.lines += ["%if 0%{?quux}", f"{k} {name} 77", "%else", line, "%endif"]
            elif style == "old":
                out = r.choice(["#", "%dnl %", "%dnl%"]) + f"{k[1:]} {name} 66"
                self.lines += [out, line] if r.random() < 0.5 else [line, out]
            elif style == "twice":
                self.lines += [f"{k} {name} 55", line]
            else:
                self.lines.append(line)
            self.names.append(name)

        for name in r.sample(["majorver", "minorver", "patchver", "ver_x", "upstream"], r.choice([0, 1, 2, 3, 3])):
            define(name, num())
            parts.append(name)
        if r.random() < 0.3:
            define("projname", r.choice(["proj", "lib9"]), "plain")
        if r.random() < 0.2:
            define("unrelated", num())
        pre = None
        if not plain and r.random() < 0.45:
            pre = r.choice(["prever", "prerel", "beta"])
            line = f"{kw()} {pre} rc{num()}"
            t = r.random()
            if t < 0.3:
                line = "#" + line[1:]
            elif t < 0.6:
                line = "%dnl " + line
            self.lines.append(line)
        sep = r.choice([".", ".", ".", "_"]) if not plain else "."
        comp = sep.join("%{" + p + "}" if r.random() < 0.85 else "%" + p for p in parts)
        if parts and not plain and r.random() < 0.3:
            comp += "." + num()
        if not plain and r.random() < 0.15:
            comp = num() + "." + comp if comp else num()
        if not comp:
            comp = ".".join(num() for _ in range(r.choice([1, 2, 3])))
        if r.random() < 0.35:
            define("basever", comp)
            comp = "%{basever}"
        if pre:
            comp += r.choice([f"%{{?{pre}:~%{{{pre}}}}}", f"%{{?{pre}:~%{pre}}}", f"%{{?{pre}}}", f"%{{?{pre}:~pre}}"])
        if r.random() < 0.25:
            define("pkgver", comp)
            comp = "%{pkgver}"
        self.pre = pre
        self.above = list(self.names)
        self.lines.append(f"Name: test{ident}")
        verline = "Version:" + r.choice([" ", "        ", "\t"]) + comp
        if not plain and r.random() < 0.12:
            self.lines += ["%if 0%{?quux}", "Version: 99", "%else", verline, "%endif"]
        else:
            self.lines.append(verline)
        # release
        t = r.random()
        dist = r.choice(["%{?dist}", "%{?dist}", "%{dist}", "%dist", ""])
        if t < 0.2:
            name = r.choice(["baserelease", "baserelease", "rel", "release"])
            if name == "baserelease" and r.random() < 0.15:
                self.lines += ["%if 0", "%global baserelease 44", "%endif"]
            define(name, r.choice(["1", "9", "0.3", "3%{?dist}"]), r.choice(["plain", "plain", "plain", "old"]))
            rel = "%{" + name + "}" + dist
        elif t < 0.27 and parts:
            rel = "%{" + parts[0] + "}" + dist
        elif t < 0.32:
            rel = "%autorelease"
            self.lines.insert(0, "%global autorelease 5")
        else:
            rel = r.choice(["1", "9", "0.1", "0.9.rc1", "1.rc1", "2.20190101git", "3.beta2", "1.9", "10"]) + dist
            if dist and r.random() < 0.15:
                rel += "." + str(r.choice([1, 9]))
        self.lines.append("Release: " + rel)
        self.lines += ["Summary: s", "License: MIT"]
        if r.random() < 0.4:
            self.lines.append("URL: https://example.org/" + r.choice(["%{name}", "v%{version}", "x"]))
        src = r.choice(
            [
                "https://example.org/%{name}/%{name}-%{version}.tar.gz",
                "https://example.org/%{version}/x.zip",
                "%{name}-%{version}.tar.gz",
                "plain-1.0.tar.gz",
                "%{?projname}%{!?projname:p}-%{version}.tar.gz",
            ]
        )
        self.lines.append("Source0: " + src)
        self.src = src
        self.lines += ["", "%description", "text"]
        if r.random() < 0.3:
            self.lines += ["", "%prep", "%setup -q -n %{name}-%{version}"]

    def text(self):
        return "\n".join(self.lines) + "\n"


def version(rng):
    n = rng.choice([1, 2, 3, 3, 3, 4])
    v = ".".join(str(rng.choice([0, 1, 2, 3, 5, 10, 21])) for _ in range(n))
    t = rng.random()
    if t < 0.2:
        v += "~" + rng.choice(["rc1", "beta4", "alpha1"])
    elif t < 0.28:
        v += rng.choice(["a", "b2", "_1", "+git1", "^2024"])
    return v


PATTERNS = [r"([.\-_~^]?)(rc|beta|alpha)\d+", r"(-)rc\d+", r"([\-~]?)(?:rc|b)\d"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    docs = [Doc(rng, chr(97 + i)) for i in range(n)]
    cfg = {
        "docs": [{"text": d.text(), "pre": d.pre} for d in docs],
        "macros": rng.choice([[["dist", ".fc39"]], [["dist", ".fc39"]], [["dist", None]], [["dist", ".el9"], ["quux", "1"]]]),
    }
    ops = []
    for _ in range(rng.randrange(2, 7 if tier == "quick" else 12)):
        c = rng.randrange(n)
        d = docs[c]
        r = rng.random()
        if r < 0.3:
            op = {"do": "update_tag", "name": rng.choice(["Version", "version"]), "value": version(rng)}
            if rng.random() < 0.5:
                op["value"] = shaped(rng, d.text())
            elif d.above and rng.random() < 0.25:
                # by reference to macros the version may be made of
                nm = rng.choice(d.above)
                op["value"] = rng.choice(["%{{{0}}}.7", "%{{{0}}}~rc5", "9.%{{{0}}}", "%{{?{0}}}", "%{{{0}}}", "%{{?{0}:%{0}}}.4"]).format(nm)
        elif r < 0.45:
            op = {"do": "update_version", "v": version(rng)}
            if rng.random() < 0.7:
                op["pattern"] = rng.choice(PATTERNS)
                op["macro"] = rng.choice([d.pre, d.pre, None, "nosuch"])
                op["v"] = op["v"].split("~")[0] + rng.choice(["", "", "-rc2", "rc1", "~beta3", ".alpha1"])
        elif r < 0.55:
            op = {"do": "update_tag", "name": "Release", "value": rng.choice(["2%{?dist}", "7", "0.2.rc3", "4%{?dist}.1"])}
        elif r < 0.65:
            v = version(rng).split("~")[0]
            op = {"do": "update_tag", "name": "Source0"}
            op["value"] = rng.choice(
                [
                    f"https://example.org/test{chr(97 + c)}/test{chr(97 + c)}-{v}.tar.gz",
                    f"https://example.org/{v}/x.zip",
                    f"test{chr(97 + c)}-{v}.tar.gz",
                    f"other-{v}.tar.gz",
                ]
            )
        elif r < 0.75:
            op = {"do": "setvr", "v": version(rng), "r": rng.choice(["1", "3", "0.1.rc1"])}
        elif r < 0.82:
            op = {"do": "prop", "name": "release", "value": rng.choice(["5", "0.4", "6.rc1"])}
        elif r < 0.92:
            op = {"do": "bump"}
        elif r < 0.96:
            op = {"do": "toggle"}
        else:
            op = {"do": rng.choice(["save", "reload"])}
        op["c"] = c
        op["faults"] = pick_faults(rng, ["KINT", "MEM", "EIO", "EMFILE", "ENOSPC"], ["tmp", "other"], 0.2, top=30, most=1)
        for f in op["faults"]:
            # one failure per update: what undoes a half-done update can't be cut short as well
            f.pop("sticky", None)
        ops.append(op)
    return {"config": cfg, "ops": ops}


# -- reading the text ---------------------------------------------------------------------------


def definitions(lines):
    """{name: [(index, body)]} of macros, {lower-case name: [(index, value)]} of tags."""
    macros, tags = {}, {}
    for i, line in enumerate(lines):
        if line.startswith("%description"):
            break
        m = DEF.match(line)
        if m:
            macros.setdefault(m.group(2), []).append((i, m.group(4)))
            continue
        m = TAG.match(line)
        if m:
            tags.setdefault(m.group(1).lower(), []).append((i, m.group(2)))
    return macros, tags


def related(text, tag):
    """Indices of lines the value of a tag is made of."""
    lines = text.split("\n")
    macros, tags = definitions(lines)
    found = set()
    todo = []
    for i, value in tags.get(tag.lower(), []):
        found.add(i)
        todo.append(value)
    seen = set()
    while todo:
        for name in REF.findall(todo.pop()):
            if name in seen:
                continue
            seen.add(name)
            if re.match(PROTECTED, name, re.I):
                continue
            for i, body in macros.get(name, []) + tags.get(name.lower(), []):
                found.add(i)
                todo.append(body)
    return found


def changed(before, after):
    a, b = before.split("\n"), after.split("\n")
    if len(a) != len(b):
        return None
    return [i for i in range(len(a)) if a[i] != b[i]]


# -- the run ------------------------------------------------------------------------------------


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]

    def classify(p):
        return "tmp" if isinstance(p, str) and p.startswith(w.path("tmp")) else "other"

    K.classify_path = classify
    clients = {}
    for c, d in enumerate(cfg["docs"]):
        w.write(f"s{c}.spec", d["text"])
        macros = [tuple(m) for m in cfg["macros"]]
        spec = w.call("new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"), macros=macros)).value
        if spec is None:
            w.probe("document refused")
            continue
        clients[c] = {"spec": spec, "macros": cfg["macros"], "pre": d["pre"], "saved": d["text"]}
    for op in trace["ops"]:
        cl = clients.get(op["c"])
        if cl is None:
            continue
        w.ops_done += 1
        others = {c: str(o["spec"]) for c, o in clients.items() if o is not cl}
        step(w, cl, op)
        for c, text in others.items():
            if str(clients[c]["spec"]) != text:
                raise Violation("other", f"spec {c} changed without being edited")


def described(op):
    """The operation in terms of the public API (see sim.ops)."""
    do = op["do"]
    out = {"do": "w_" + do}
    if do == "update_version":
        out.update(value=op["v"], pattern=op.get("pattern"), macro=op.get("macro"))
    elif do == "setvr":
        out.update(version=op["v"], release=op["r"])
    else:
        out.update({k: op[k] for k in ("name", "value") if k in op})
    return out


def apply(spec, op):
    return api.apply(spec, described(op))


def step(w, cl, op):
    spec = cl["spec"]
    before = str(spec)
    if op["do"] == "save":
        w.must("save", spec.save)
        cl["saved"] = before
        return
    if op["do"] == "reload":
        w.must("reload", spec.reload)
        return
    if op["do"] == "toggle":
        # the packager turns the pre-release on or off
        if cl["pre"]:
            w.must("toggle", lambda: toggle(spec, cl["pre"]))
        return
    tag = op["name"].lower() if do_updates(op) else "release"
    if tag not in definitions(before.split("\n"))[1]:
        return
    old = ask(w, cl, before)
    if not old["ok"]:
        raise Violation("refused", f"RPM refuses the document: {old['stderr'].strip()[:300]}")
    out = w.call(op["do"], lambda: apply(spec, op), op.get("faults"))
    after = str(spec)
    if out.exc is not None:
        if not out.fired:
            raise Violation("unexpected-exception", f"{describe(op)} failed: {out.desc()}")
        w.probe("interrupted update" if after == before else "interrupted update left changes")
        w.must(op["do"], lambda: apply(spec, op))
        after = str(spec)
        # the same document, updated without an interruption
        fresh = twin(w, cl, before, op)
        if fresh != after:
            raise Violation(
                "convergence", f"{describe(op)} interrupted and repeated gives {diff(fresh, after)} compared to one that was not"
            )
        w.probe("converged")
    w.probe("updates: " + op["do"])
    judge(w, cl, op, before, old, after)


def twin(w, cl, text, op):
    res = w.ref.twin(text, [described(op)], w.path("src"), macros=cl["macros"])
    if res[0]["exc"]:
        raise Violation("convergence", f"{describe(op)} fails in a fresh process only: {res[0]['exc']}")
    return res[0]["text"]


def do_updates(op):
    return op["do"] == "update_tag"


def toggle(spec, name):
    with spec.macro_definitions() as mds:
        md = mds.get(name)
        md.commented_out = not md.commented_out


def ask(w, cl, text, expand=()):
    return w.ref.ask(
        text, w.path("src"), macros=cl["macros"], expand=["%{version}", "%{release}"] + list(expand),
        want=["header", "fullsources"], key=0, materialise=True,
    )


def describe(op):
    return f"{op['do']}({', '.join(repr(v) for k, v in op.items() if k not in ('do', 'c', 'faults'))})"


def diff(a, b):
    import difflib

    return "\n".join(list(difflib.unified_diff(a.split("\n"), b.split("\n"), lineterm="", n=0))[:20])


def wanted_version(op):
    """Value update_version is to set."""
    v = op["v"]
    if not op.get("pattern"):
        return v
    m = re.match(f"^.*?{op['pattern']}$", v, re.I)
    if not m:
        return v
    a, b = m.span(1)
    return v[:a] + "~" + v[b:]


def judge(w, cl, op, before, old, after):
    do = op["do"]
    where = changed(before, after)
    if where is None:
        raise Violation("lines", f"{describe(op)} changed the number of lines: {diff(before, after)}")
    may = set()
    expected = None
    tag = None
    if do in ("update_tag", "update_version"):
        tag = "version" if do == "update_version" else op["name"].lower()
        may = related(before, tag)
        expected = wanted_version(op) if do == "update_version" else op["value"]
        if op.get("macro"):
            may |= {i for i, _ in definitions(before.split("\n"))[0].get(op["macro"], [])}
    elif do == "setvr":
        may = tag_lines(before, "version") | tag_lines(before, "release")
    elif do == "prop":
        may = tag_lines(before, "release")
    elif do == "bump":
        may = related(before, "release")
    for i in where:
        if i not in may:
            raise Violation("unrelated", f"{describe(op)} changed an unrelated line: {diff(before, after)}")
    if expected is not None and tag == "version":
        shape(w, op, before, after, expected)
    new = ask(w, cl, after, [expected] if expected else [])
    if not new["ok"]:
        raise Violation("refused", f"RPM refuses the document after {describe(op)}: {new['stderr'].strip()[:300]}\n{diff(before, after)}")
    if expected is not None:
        value = new["expand"][2]
        if tag == "source0":
            got = new["fullsources"][0][0]
        else:
            got = new["header"][tag]
        if got != value:
            raise Violation("value", f"after {describe(op)} RPM evaluates {tag} to {got!r} instead of {value!r}: {diff(before, after)}")
        if not where:
            w.probe("nothing to change")
    elif do == "setvr":
        if new["header"]["version"] != op["v"]:
            raise Violation("value", f"after {describe(op)} the version is {new['header']['version']!r}: {diff(before, after)}")
        judge_release(w, cl, before, after, op["r"], new, op)
    elif do == "prop":
        judge_release(w, cl, before, after, op["value"], new, op)
    elif do == "bump":
        a, b = old["header"]["release"], new["header"]["release"]
        if "%autorelease" in before:
            if where:
                raise Violation("autorelease", f"bumping changed {diff(before, after)}")
            return
        bump_place(w, op, before, after)
        if w.ref.vercmp(["0", "1", b], ["0", "1", a]) <= 0:
            raise Violation("bump", f"release {a!r} was bumped to {b!r}, which is not newer: {diff(before, after)}")


class Odd(Exception):
    """The document is not one the shape of a value is defined for."""


TOKEN = re.compile(
    r"""
    %\{\?(?P<cond>\w+):(?P<body>(?:[^{}]|%\{\w+\})*)\}
    |%\{(?P<enclosed>\??\w+)\}
    |%(?P<plain>\w+)
    |(?P<sep>[.~])
    |(?P<lit>[A-Za-z0-9]+)
    """,
    re.VERBOSE,
)


class Level:
    """One value (of the tag or of a macro) taken apart."""

    def __init__(self, doc, line, value, top=True):
        self.line = line
        self.tokens = []  # strings kept as they are, or ["lit", text], or ["ref", text, Level]
        self.lits = 0
        self.flat = []  # components (places in trees) and separators
        self.parse(doc, value)
        # composite parts are only told apart reliably in the first place
        for n, t in enumerate(self.groups):
            if t[0] == "ref" and len(t[2].flat) > 1 and n:
                raise Odd
        for x, y in zip(self.flat, self.flat[1:]):
            if isinstance(x, str) == isinstance(y, str):
                raise Odd
        if not self.flat or isinstance(self.flat[0], str) or isinstance(self.flat[-1], str):
            raise Odd

    @property
    def groups(self):
        return [t for t in self.tokens if not isinstance(t, str)]

    def parse(self, doc, value):
        pos = 0
        while pos < len(value):
            m = TOKEN.match(value, pos)
            if not m:
                raise Odd
            pos = m.end()
            if m.group("sep"):
                self.tokens.append(m.group("sep"))
                self.flat.append(m.group("sep"))
            elif m.group("lit"):
                self.lits += 1
                if self.lits > 1:
                    # several components in a row may be divided in several ways
                    raise Odd
                t = ["lit", m.group("lit")]
                self.tokens.append(t)
                self.flat.append(t)
            elif m.group("cond"):
                doc.switch(m.group("cond"), self.line)
                self.tokens.append(f"%{{?{m.group('cond')}:")
                self.parse(doc, m.group("body"))
                self.tokens.append("}")
            else:
                self.lits = 0
                name = (m.group("enclosed") or m.group("plain")).lstrip("?")
                level = doc.level(name, self.line)
                self.tokens.append(["ref", m.group(0), level])
                self.flat += level.flat

    def render(self):
        return "".join(t if isinstance(t, str) else t[1] for t in self.tokens)


class Plan:
    """How the version of a document is made of macros, if that is simple enough."""

    def __init__(self, text):
        self.lines = text.split("\n")
        self.macros, tags = definitions(self.lines)
        self.levels = {}
        self.switches = set()
        if len(tags.get("version", [])) != 1:
            raise Odd
        at, raw = tags["version"][0]
        self.conditional = set()
        depth = 0
        for i, line in enumerate(self.lines):
            if line.startswith("%if"):
                depth += 1
            elif line.startswith("%endif"):
                depth -= 1
            elif depth:
                self.conditional.add(i)
        self.at = at
        self.top = Level(self, at, raw)

    def definition(self, name, before):
        found = self.macros.get(name, [])
        if len(found) != 1 or re.match(PROTECTED, name, re.I) or "Name" == name:
            raise Odd
        i, body = found[0]
        if i >= before or i in self.conditional or "(" in self.lines[i]:
            raise Odd
        if not re.match(r"(#|%dnl ?%|%)(global|define)\b", self.lines[i]):
            raise Odd
        return i, body.strip()

    def switch(self, name, before):
        i, _ = self.definition(name, before)
        self.switches.add(i)

    def level(self, name, before):
        if name in self.levels:
            raise Odd
        i, body = self.definition(name, before)
        if not self.lines[i].startswith(("%global", "%define")):
            self.switches.add(i)
        self.levels[name] = level = Level(self, i, body)
        return level

    def shape(self):
        return [t if isinstance(t, str) else None for t in self.top.flat]

    def update(self, value):
        """Bodies by line and the value of the tag after an update."""
        parts = re.split(r"([.~])", value)
        if len(parts) != len(self.top.flat):
            raise Odd
        for p, t in zip(parts, self.top.flat):
            if isinstance(t, str):
                if p != t:
                    raise Odd
            elif not re.match(r"^[A-Za-z0-9]+$", p):
                raise Odd
        for p, t in zip(parts, self.top.flat):
            if not isinstance(t, str):
                t[1] = p
        return {level.line: level.render() for level in [self.top] + list(self.levels.values())}


def shape(w, op, before, after, expected):
    """Parts that are macros of their own stay so if the new value has the same shape."""
    if op.get("macro"):
        return
    try:
        plan = Plan(before)
        wanted = plan.update(expected)
    except Odd:
        return
    now = after.split("\n")
    macros, tags = definitions(now)
    bodies = {i: b.strip() for found in list(macros.values()) + list(tags.values()) for i, b in found}
    off = [i for i in wanted if i != plan.at and not now[i].lstrip().startswith(("%global", "%define"))]
    off += [i for i in plan.switches if not now[i].lstrip().startswith(("%global", "%define"))]
    if off or {i: bodies[i] for i in wanted} != wanted:
        raise Violation("shape", f"{describe(op)} did not keep the parts of the version: {diff(before, after)}")
    w.probe("updated in place")
    if plan.switches and before.split("\n") != now and any(not plan.lines[i].startswith("%g") and not plan.lines[i].startswith("%def") for i in plan.switches):
        w.probe("switched on in place")
    if len(plan.levels) > 1:
        w.probe("updated in place, several macros")


def bump_place(w, op, before, after):
    """A macro holding the release is bumped rather than the tag."""
    lines = before.split("\n")
    macros, tags = definitions(lines)
    at, raw = tags["release"][0]
    names = [n for n in ("release", "baserelease") if "%{" + n + "}" in raw]
    if len(names) != 1 or len(macros.get(names[0], [])) != 1:
        return
    i, _ = macros[names[0]][0]
    if i > at or not lines[i].startswith(("%global", "%define")):
        return
    w.probe("bumped in place")
    if changed(before, after) != [i]:
        raise Violation("bump-place", f"the release was not bumped in its macro: {diff(before, after)}")


def shaped(rng, text):
    """A version of the same shape."""
    try:
        shape = Plan(text).shape()
    except Odd:
        return version(rng)
    return "".join(s or rng.choice(["0", "1", "2", "3", "10", "21", "rc2", "b3"] if n else "0123") for n, s in enumerate(shape))


def tag_lines(text, tag):
    return {i for i, _ in definitions(text.split("\n"))[1].get(tag, [])}


def judge_release(w, cl, before, after, value, new, op):
    """The release is the requested one followed by the suffix it had."""
    raw = [v for i, v in definitions(before.split("\n"))[1]["release"]][0]
    m = re.search(r"(%\{\?dist\}|%\{dist\}|%dist)(\.\d+)?$", raw)
    suffix = m.group(1) if m else ""
    ref = ask(w, cl, after, [value + suffix])
    if new["header"]["release"] != ref["expand"][2]:
        raise Violation(
            "value", f"after {describe(op)} the release is {new['header']['release']!r} instead of {ref['expand'][2]!r}: {diff(before, after)}"
        )
