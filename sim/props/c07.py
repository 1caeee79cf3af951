"""C07: an edit changes what it names and nothing else."""

import contextlib
import copy
import json
import re

from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation

NEEDS_REF = False

MANDATORY = {"name", "version", "release", "summary", "license"}
COMMENT = re.compile(r"^\s*#")
SRC_NAME = re.compile(r"^(source|patch)\d*$", re.I)

# -- documents: a flat list of items ------------------------------------------------------
#
# raw    one line nobody names (blank lines are raw lines, too)
# sec    a section header
# tag, macro, entry (of a changelog), prep (macro in %prep), src (line of a list section)


def raw(line):
    return {"k": "raw", "l": line}


def tag(name, val, sep=": ", pre="", suf=""):
    return {"k": "tag", "name": name, "val": val, "sep": sep, "pre": pre, "suf": suf}


def macro(name, body, kw="global", style="", ws=("", " ", " ", ""), pfx=""):
    return {
        "k": "macro", "name": name, "body": body, "kw": kw, "style": style, "ws": list(ws),
        "pfx": pfx,
    }


def entry(header, content):
    return {"k": "entry", "header": header, "content": list(content)}


def prep(name, opts="", delim=" ", pre="", suf=""):
    return {
        "k": "prep", "name": name, "opts": opts, "delim": delim if opts else "", "pre": pre,
        "suf": suf,
    }


def render(it):
    k = it["k"]
    if k == "tag":
        return (it["pre"] + it["name"] + it["sep"] + it["val"] + it["suf"]).split("\n")
    if k == "macro":
        ws = it["ws"]
        dnl = "%dnl" if it["style"] == "dnl" else ""
        sc = "#" if it["style"] == "hash" else "%"
        head = ws[0] + dnl + it["pfx"] + sc + it["kw"] + ws[1] + it["name"] + ws[2]
        return (head + it["body"] + ws[3]).split("\n")
    if k == "entry":
        return [it["header"]] + it["content"]
    if k == "prep":
        return [it["pre"] + it["name"] + it["delim"] + it["opts"] + it["suf"]]
    return [it["l"]]


def lines_of(doc):
    return [line for it in doc for line in render(it)]


def is_blank(it):
    return it["k"] == "raw" and not it["l"].strip()


# -- generation -----------------------------------------------------------------------------


class Gen:
    def __init__(self, rng, ident, odd):
        self.rng = rng
        self.ident = ident
        self.n = 0
        self.odd = odd
        self.macros = []

    def u(self):
        self.n += 1
        return f"{self.ident}{self.n}"

    def sep(self):
        r = self.rng
        return r.choice([": ", ":        ", ":\t", " : ", ":", ":  \t "]) if self.odd else ":  "

    def ws(self):
        r = self.rng
        return r.choice(["", "", "", " ", "  ", "\t"]) if self.odd else ""

    def comment(self):
        r = self.rng
        if r.random() < 0.15:
            # nothing to tell them apart by
            return r.choice(["#", "#   ", "##", "#\t", "  #  ", "#------", "# # #", "\t#"])
        text = r.choice(
            ["note", "see %%{name}", "Requires: x", "a  b  ", "", "žluťoučký", "x\x0cy", "u\u2028v",
             "50%", "bytes \udce9\udcff", "(", "open {", "100%% \\ x"]
        )
        return r.choice(["# ", "#", "  # ", "#  "]) + text + " " + self.u()

    def rawline(self):
        r = self.rng
        return r.choice(
            ["", "", "", "   ", "\t", "%{?undef_macro}", "%{!?quux:%global quux 1}", "%dnl nothing",
             "%{?quux: }", "%bcond_with thing", "%{?undef_macro:%global nah 1}", "%{?undef_macro:} "]
        )

    def tagitem(self):
        r = self.rng
        u = self.u()
        t = r.random()
        if t < 0.3:
            it = tag(r.choice(["Requires", "BuildRequires", "requires", "Provides"]), f"dep-{u}", self.sep())
        elif t < 0.4:
            it = tag("Requires(post)", f"dep-{u} >= 1", self.sep())
        elif t < 0.5:
            it = tag(r.choice(["Conflicts", "Obsoletes"]), f"old-{u} < %{{version}}", self.sep())
        elif t < 0.6:
            it = tag("Summary(de)", f"Über {u}", self.sep())
        elif t < 0.7:
            it = tag("BuildRequires", f"%{{?quux: dep-{u}}}%{{!?quux:x{u}}}", self.sep())
        elif t < 0.8:
            it = tag("Provides", f"prov%{{?undef_macro:{self.ws()}\n}}-{u}{self.ws()}%{{?undef_macro:x\n}}", self.sep())
        elif t < 0.93:
            cond = r.choice(["%{?quux:", "%{!?quux:", "%{?undef_macro:"])
            it = tag("Recommends", f"rec-{u}", self.sep(), cond, "}")
        elif t < 0.96:
            it = tag("Suggests", f"s%(echo '()' | tr -d '()')x(y){u}", self.sep())
        else:
            it = tag("Suggests", f"s%(echo{self.ws()}\n)-{u}%(true;{self.ws()}\n true{self.ws()}\n)", self.sep())
        it["suf"] += self.ws()
        return it

    def macroitem(self):
        it = self.newmacro()
        same = [x for x in self.macros if x[0] == it["name"][0]]
        if same and self.rng.random() < 0.25:
            # defined more than once
            it["name"] = self.rng.choice(same)
        elif it["name"].isidentifier():
            self.macros.append(it["name"])
        return it

    def newmacro(self):
        r = self.rng
        u = self.u()
        t = r.random()
        kw = r.choice(["global", "define"])
        ws = ["", " ", " ", ""]
        if self.odd:
            ws = [r.choice(["", "", " ", "\t"]), r.choice([" ", "  ", "\t"]), r.choice([" ", "   ", "\t"]), self.ws()]
        if t < 0.35:
            return macro(f"m_{u}", f"v{u}", kw, "", ws)
        if t < 0.45:
            return macro(f"p_{u}()", f"arg %1 {u}", kw, "", ws)
        if t < 0.5:
            # brackets that open and close nothing
            body = r.choice(["(", "x{", "x)", "y}", "({", "a ( b", "x) %(echo\n)", "y} %{expand:\nin}", "%{expand:\\}\nin}", "\\%{nil}{"])
            return macro(f"ub_{u}", body + u, kw, "", ws)
        if t < 0.6:
            # the whitespace after the last line belongs to the definition
            return macro(f"ml_{u}", f"first{u} \\\n  second \\\n third", kw, "", ws)
        if t < 0.7:
            inner = r.choice(["", " ", "\t"]) if self.odd else ""
            if r.random() < 0.3:
                return macro(f"br_{u}", "%(echo" + inner + f"\necho in{u}\n)", kw, "", ws)
            return macro(f"br_{u}", "%{expand:" + inner + f"\nin{u}\n}}", kw, "", ws)
        if t < 0.8:
            return macro(f"d_{u}", f"v{u}", kw, "dnl", ws, r.choice(["", " "]))
        if t < 0.9:
            return macro(f"h_{u}", f"v{u}", kw, "hash", ws)
        return macro(f"o_{u}", f"v{u}", kw, "other", ws, r.choice(["#%", "# %", "# no: %"]))

    def preamble_part(self, depth=0):
        r = self.rng
        t = r.random()
        if t < 0.4:
            items = [raw(self.comment()) for _ in range(r.choice([0, 0, 0, 1, 2]))]
            return items + [self.tagitem()]
        if t < 0.6:
            return [self.macroitem()]
        if t < 0.72:
            return [raw(self.rawline())]
        if t < 0.8:
            return [raw(self.comment()), raw(r.choice(["", "   "]))]
        if t < 0.85:
            return [raw("%{lua:"), raw("local x = 1"), raw("  "), raw("}")]
        if depth < 2:
            cond = r.choice(["%if 0%{?quux}", "%if 1", "%if 0", "%ifarch x86_64", "  %if ! 0%{?nope}  "])
            out = [raw(cond)]
            if r.random() < 0.12:
                # conditions may go on on the next lines
                out = [raw(f"%if {r.choice('01')} || \\")] + [raw("  0 || \\")] * r.randrange(2)
                out.append(raw(f"  {r.choice('01')}"))
            for _ in range(r.randrange(0, 3)):
                out += self.preamble_part(depth + 1)
            if r.random() < 0.4:
                out.append(raw(r.choice(["%else", "%else  "])))
                for _ in range(r.randrange(0, 3)):
                    out += self.preamble_part(depth + 1)
            out.append(raw(r.choice(["%endif", "%endif  ", "%endif # x"])) if depth == 0 and False else raw("%endif"))
            return out
        return [raw("")]

    def sources(self):
        r = self.rng
        out = []
        style = r.choice(["num", "num", "plain", "mixed"])
        for kind, ext in (("Source", "tar.gz"), ("Patch", "patch")):
            for i in range(r.randrange(0, 4)):
                name = kind + (str(i) if style == "num" or style == "mixed" and r.random() < 0.5 else "")
                if r.random() < 0.2:
                    out.append(raw(self.comment()))
                out.append(tag(name, f"{kind.lower()}-{self.u()}.{ext}", self.sep()))
                if r.random() < 0.15:
                    out.append(raw(r.choice(["", "# stray " + self.u(), "%dnl x"])))
        return out

    def prepitems(self):
        r = self.rng
        out = []
        if r.random() < 0.3:
            out.append(raw(r.choice(["echo first", "", "# %%x", "%{?quux:echo quux}", "%{?undef_macro:}"])))
        out.append(
            r.choice(
                [
                    prep("%setup", "-q"),
                    prep("%setup", "-q -n %{name}-%{version}"),
                    prep("%setup", "-n x\\.y -q"),
                    prep("%setup", '-q -n "a b"'),
                    prep("%setup", "-T -c  -q", "  "),
                    prep("%setup", "-q -n %{name}-%(echo '1 2' | tr ' ' '-')"),
                    prep("%autosetup", "-p1"),
                    prep("%autosetup", "-p 1 -n 'q w'"),
                    prep("%autosetup", "-N -n \"\""),
                    prep("%setup", ""),
                    prep("%setup", "-q -a 1 -b 2 -D"),
                    prep("%setup", "-q -nx-y -D"),
                    prep("%autosetup", "-p1 -Sgit -n%{name}"),
                ]
            )
        )
        for i in range(r.randrange(0, 4)):
            if r.random() < 0.4:
                out.append(
                    raw(
                        r.choice(
                            ["", "sed -i x y", "# comment", "%{?quux:echo 1}", "%{?undef_macro:echo %{name}}",
                             "cat << 'E' > f\\x", "  indented", "%if 1", "%endif", "%patchutils x"]
                        )
                    )
                )
            style = r.randrange(7)
            suf = self.ws()
            if style == 0:
                out.append(prep(f"%patch{i}", "-p1", suf=""))
            elif style == 1:
                out.append(prep("%patch", f"-P {i} -p1 -b .o"))
            elif style == 2:
                out.append(prep("%patch", r.choice([f"{i} -p1 -R", f"-b.o -P{i} -p1", f"-p 1 -b .o {i}", f"-p 1 {i} -b .o"])))
            elif style == 3:
                out.append(prep(f"%patch{i}", "-p1 -b .x\\$y", "  ", "%{?quux:", "}"))
            elif style == 4:
                out.append(prep(f"%patch{i}", "-p1 -b %{?quux:a b}c", pre="test -e x && "))
            elif style == 5:
                out.append(prep("%autopatch", r.choice(["", "-p1", "-v -p 1 -m 2", "-M3 -p1", "-p1 1 2"])))
            else:
                out.append(prep(f"%patch{i}", "", pre="  "))
            if suf and out[-1]["opts"] and not out[-1]["suf"]:
                out[-1]["opts"] += suf
        # keep conditions balanced
        depth = 0
        fixed = []
        for it in out:
            if it.get("l") == "%if 1":
                depth += 1
            if it.get("l") == "%endif":
                if not depth:
                    continue
                depth -= 1
            fixed.append(it)
        fixed += [raw("%endif")] * depth
        if r.random() < 0.5:
            fixed.append(raw(r.choice(["", "echo last", "%{?quux:echo end}"])))
        # RPM refuses macros for patches that are not there; what it thinks of them is not
        # what this is about
        return [raw("%if 0")] + fixed + [raw("%endif")]

    def header(self, day):
        r = self.rng
        return r.choice(
            [
                f"* Mon Jan {day:02} 2024 A B <a@b.c> - 1-{day}",
                f"* Mon Jan {day:2} 2024 A B <a@b.c> 1-{day}",
                f"* Mon Jan {day:02} 12:00:00 UTC 2024 Žluť <a@b.c> - 1-{day}",
                f"*  Mon  Jan {day}  2024 odd header",
                f"*Mon Jan {day:02} 2024 A B <a@b.c> - 1-{day}",
            ]
        )

    def doc(self):
        r = self.rng
        d = [raw(self.comment())] if r.random() < 0.3 else []
        base = [
            [tag("Name", f"pkg{self.ident}", self.sep())],
            [tag("Version", "1.0", self.sep())],
            [tag("Release", r.choice(["1%{?dist}", "1", "3%{?dist}.2"]), self.sep())],
            [tag("Summary", r.choice(["sum", "x\x0cy", "u\u2028v", "žluť", "a  b"]), self.sep())],
            [tag("License", "MIT", self.sep(), suf=self.ws())],
        ]
        if r.random() < 0.3:
            base.append([tag("Epoch", str(r.randrange(4)), self.sep())])
        if r.random() < 0.5:
            base.append([tag("URL", "https://example.org/%{name}", self.sep())])
        parts = [self.preamble_part() for _ in range(r.randrange(1, 9))]
        srcs = self.sources()
        mixed = base + parts
        if r.random() < 0.7:
            r.shuffle(mixed)
        mixed.insert(r.randrange(len(mixed) // 2, len(mixed) + 1), srcs)
        for p in mixed:
            d += p
        for _ in range(r.randrange(0, 3)):
            d.append(raw(""))
        if r.random() < 0.3:
            d += [{"k": "sec", "l": r.choice(["%sourcelist", "%patchlist"])}]
            for _ in range(r.randrange(0, 4)):
                if r.random() < 0.4:
                    d += [raw(self.comment())]
                    if r.random() < 0.5:
                        d += [raw("")]
                d.append({"k": "src", "l": f"list-{self.u()}.txt"})
            d += [raw("")]
        d += [{"k": "sec", "l": r.choice(["%description", "%Description"])}]
        for _ in range(r.randrange(0, 4)):
            d.append(raw(r.choice(["Text", "", "Name: not a tag", "u\u2028v\x85w", "x\x1cy", "  ", "bytes é"])))
        sub = r.random() < 0.6
        if sub:
            d += [{"k": "sec", "l": r.choice(["%package sub", "%package  -n  sub", "%package -n sub"])}]
            d += [tag("Summary", "Sub", self.sep())]
            for _ in range(r.randrange(0, 3)):
                d += self.preamble_part(1)
            name = d_sub = next(i["l"] for i in reversed(d) if i["k"] == "sec")
            arg = name[len("%package"):]
            d += [{"k": "sec", "l": "%description" + arg}, raw("Sub."), raw("")]
        if r.random() < 0.25:
            # names of packages, unlike those of sections, are case sensitive
            arg = r.choice([" Sub", " -n Sub", " -n SUB"])
            d += [{"k": "sec", "l": r.choice(["%package", "%Package"]) + arg}, tag("Summary", "Other", self.sep())]
            d += [{"k": "sec", "l": r.choice(["%description", "%DESCRIPTION"]) + arg}, raw("Other."), raw("")]
            d += [{"k": "sec", "l": "%files" + arg + r.choice(["", " "])}, raw("")]
        d += [{"k": "sec", "l": r.choice(["%prep", "%prep", "%prep ", "%Prep"])}] + self.prepitems()
        d += [{"k": "sec", "l": "%build"}]
        for _ in range(r.randrange(0, 4)):
            d.append(raw(r.choice(["make", "", "%{?quux:make quux}", "  # comment", "cat \\ E", "%{nil}", "echo \udce9 \udcff"])))
            if r.random() < 0.15:
                d.append(self.macroitem())
        if r.random() < 0.4:
            d += [{"k": "sec", "l": r.choice(["%check", "%post -p /bin/sh", "%install", "%clean"])}, raw("true"), raw("")]
        d += [{"k": "sec", "l": r.choice(["%files", "%files -f list.txt", '%files -f "li st" -f b', "%files -f %{name}.lang"])}]
        d += [raw("/usr/bin/x"), raw("%{?quux:/usr/bin/y}"), raw("")]
        if sub:
            arg = d_sub[len("%package"):]
            d += [{"k": "sec", "l": "%files" + arg}, raw("")]
        if r.random() < 0.85:
            d += [{"k": "sec", "l": r.choice(["%changelog", "%changelog", "%ChangeLog", "%changelog  "])}]
            if r.random() < 0.2:
                d += [raw(r.choice(["# top comment", "", "  # comment"]))]
            n = r.randrange(0, 4)
            for i in range(n):
                content = [r.choice(["- item", "- bytes é", "- u\u2028v", "  more", "- %%{x}", "#rh 1"])]
                if r.random() < 0.3:
                    content += r.choice([["", "- after blank"], ["- two", " three"]])
                d.append(entry(self.header(9), [content[0] + self.u()] + content[1:]))
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    d.append(raw(r.choice(["", "", "", "  "])))
        return d


KINDS = [
    "noop", "noop", "tag_set", "tag_set", "tag_del", "tag_del", "tag_del", "tag_add", "tag_add",
    "tag_name", "com_add", "com_del", "com_set", "md_set", "md_del", "md_del", "md_add", "md_toggle",
    "md_kw", "line_set", "line_add", "line_del", "sec_set", "sec_del", "sec_add", "sec_opt", "sec_move",
    "cl_del", "cl_del", "cl_add", "cl_add", "cl_set", "pm_opt", "pm_opt", "pm_opt", "pm_pos", "pm_del",
    "pm_del", "pm_add", "pm_rm", "pm_num", "src_add", "src_del", "src_set", "attr", "attr", "missing", "vr", "add_patch", "add_entry",
]


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    odd = rng.random() < 0.75
    docs = [Gen(rng, "ab"[i], odd).doc() for i in range(n)]
    kinds = rng.sample(["KINT", "KINT", "MEM", "ENOSPC", "EIO", "EMFILE", "EACCES"], 3)
    rate = rng.choice([0, 0, 0.3, 0.5])
    focus = rng.sample(KINDS, rng.randrange(3, 12)) if rng.random() < 0.5 else KINDS
    ops = []
    for i in range(rng.randrange(5, 22)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.04:
            op = {"op": "save", "c": c}
        elif r < 0.08:
            op = {"op": "reload", "c": c}
        else:
            op = {
                "op": "edit", "c": c, "kind": rng.choice(focus), "n": rng.randrange(1 << 16),
                "m": rng.randrange(1 << 16), "how": rng.randrange(1 << 16), "v": i,
            }
            if rate:
                op["faults"] = pick_faults(rng, kinds, ["tmp", "src"], rate, 12)
        ops.append(op)
    return {
        "config": {"docs": docs, "nl": [rng.random() < 0.85 for _ in docs]},
        "ops": ops,
    }


def simplify(trace):
    """Smaller documents for the minimiser: one item less at a time."""
    for c, doc in enumerate(trace["config"]["docs"]):
        for i in range(len(doc)):
            it = doc[i]
            if it["k"] == "sec" or it["k"] == "tag" and it["name"].lower() in MANDATORY:
                continue
            if it["k"] == "raw" and re.match(r"\s*%(if|else|endif)|^%\{lua|^\}|  [01]( \|\| \\)?$", it["l"]):
                continue
            t = copy.deepcopy(trace)
            del t["config"]["docs"][c][i]
            yield t


# -- comparing a text with the model ----------------------------------------------------------


class Mismatch(Exception):
    pass


def match_item(it, lines, pos, relaxed):
    """The item as it is at `pos`, or None."""
    if relaxed and it["k"] == "tag" and SRC_NAME.match(it["name"]):
        m = re.match(
            re.escape(it["pre"]) + r"((?:source|patch)\d*)(\s*:\s*)" + re.escape(it["val"] + it["suf"]) + r"\Z",
            lines[pos] if pos < len(lines) else "",
            re.I,
        )
        if m and m.group(1)[:5].lower() == it["name"][:5].lower():
            return dict(it, name=m.group(1), sep=m.group(2))
        return None
    want = render(it)
    return it if lines[pos : pos + len(want)] == want else None


def sync(old, lines, gone=(), maybe=(), new=(), replaced=None, relaxed=False):
    """
    The document `lines` is, given what was allowed to happen to `old`: items in `gone` vanish,
    those in `maybe` may vanish, those in `new` turn up somewhere in this order. Blank lines
    stay as they are except next to items that vanish or turn up. Raises Mismatch.
    """
    replaced = replaced or {}
    new = list(new)
    out = []
    pos = 0
    old_blank = []
    new_blank = []
    removed = inserted = 0

    def skip_blank():
        nonlocal pos
        while pos < len(lines) and not lines[pos].strip():
            new_blank.append(lines[pos])
            out.append(raw(lines[pos]))
            pos += 1

    def gap(where):
        if removed:
            if len(new_blank) > len(old_blank) + inserted:
                raise Mismatch(f"blank lines appeared before {where}")
        elif inserted:
            if not len(old_blank) <= len(new_blank) <= len(old_blank) + inserted:
                raise Mismatch(f"blank lines changed before {where}: {old_blank} -> {new_blank}")
        elif old_blank != new_blank:
            raise Mismatch(f"blank lines changed before {where}: {old_blank} -> {new_blank}")

    for i, it in enumerate(old):
        if i in gone:
            removed += 1
            continue
        if is_blank(it):
            old_blank.append(it["l"])
            continue
        it = replaced.get(i, it)
        while True:
            skip_blank()
            got = new and match_item(new[0], lines, pos, relaxed)
            if not got:
                break
            new.pop(0)
            out.append(got)
            pos += len(render(got))
            inserted += 1
        got = match_item(it, lines, pos, relaxed)
        if got is None:
            if i in maybe:
                removed += 1
                continue
            have = lines[pos] if pos < len(lines) else "the end"
            raise Mismatch(f"{have!r} where {render(it)[0]!r} has to be (line {pos + 1})")
        gap(repr(render(it)[0]))
        old_blank.clear()
        new_blank.clear()
        removed = inserted = 0
        out.append(got)
        pos += len(render(got))
    while True:
        skip_blank()
        got = new and match_item(new[0], lines, pos, relaxed)
        if not got:
            break
        new.pop(0)
        out.append(got)
        pos += len(render(got))
        inserted += 1
    if pos < len(lines):
        raise Mismatch(f"{lines[pos]!r} is not part of the document (line {pos + 1})")
    if new:
        raise Mismatch(f"{render(new[0])!r} is not there")
    gap("the end")
    return out


# -- what the model says the views hold ---------------------------------------------------------


def sections_of(doc):
    """[(header or None, first item, end)]"""
    out = [[None, 0, len(doc)]]
    for i, it in enumerate(doc):
        if it["k"] == "sec":
            out[-1][2] = i
            out.append([it["l"], i + 1, len(doc)])
    return out


def kind_of(header):
    return "package" if header is None else header[1:].split()[0].lower()


def find_section(doc, kind, nth=0):
    hits = [s for s in sections_of(doc) if kind_of(s[0]) == kind]
    return hits[nth] if nth < len(hits) else None


def of_kind(doc, kind, rng=None):
    s, e = (rng[1], rng[2]) if rng else (0, len(doc))
    return [i for i in range(s, e) if doc[i]["k"] == kind]


def comments_of(doc, i):
    """Items that are comment lines directly above item i."""
    out = []
    j = i - 1
    while j >= 0 and doc[j]["k"] in ("raw", "macro"):
        ls = render(doc[j])
        if len(ls) != 1 or not COMMENT.match(ls[0]):
            break
        out.insert(0, j)
        j -= 1
    return out


def comment_text(it):
    return re.match(r"^(\s*#\s*)(.*)$", render(it)[0], re.S).group(2)


# -- reading views of the real thing ------------------------------------------------------------


@contextlib.contextmanager
def tags_view(spec, nth):
    if nth == 0:
        with spec.tags() as tags:
            yield tags
        return
    with spec.sections() as sections:
        hits = [s for s in sections if s.normalized_name == "package"]
        with spec.tags(hits[nth]) as tags:
            yield tags


def options_state(options):
    pos = list(options.positional)
    if options.positional[:] != pos or len(options.positional) != len(pos) or options.positional != pos:
        raise Mismatch(f"positional arguments are {options.positional[:]}, one by one {pos}")
    if len(options) != len(list(options)):
        raise Mismatch(f"{len(options)} options, one by one {list(options)}")
    return {k: options[k] for k in options}, pos


OPTSTRINGS = {"%setup": "a:b:cDn:Tq", "%autosetup": "a:b:cDn:TvNS:p:", "%patch": "P:p:REb:z:F:d:o:Z", "%autopatch": "vp:m:M:"}
WORD = re.compile(
    r"""\s*(?:'([^']*)'|"((?:\\.|[^"])*)"|((?:\\.|%\{[^}]*\}|%\((?:'[^']*'|[^)])*\)|[^\s'"\\])+))"""
)


def readable(opts, pos):
    """Options without the ones holding an empty string, which read as flags."""
    return {k: v for k, v in opts.items() if v is not True or k in "cDTqvNREZ"}, pos


def parse_options(it):
    """What the options of a prep macro mean, told from its text."""
    optstring = OPTSTRINGS["%patch" if it["name"].startswith("%patch") else it["name"]]
    words = []
    at = 0
    text = it["opts"]
    while text[at:].strip():
        m = WORD.match(text, at)
        if not m:
            raise Mismatch(f"options {text!r} are out of the model")
        single, double, plain = m.groups()
        if plain is not None:
            words.append(re.sub(r"\\(.)", r"\1", plain))
        else:
            words.append(single if single is not None else double.replace('\\"', '"'))
        at = m.end()

    def value(x):
        return int(x) if x.isnumeric() else x

    opts, pos = {}, []
    while words:
        word = words.pop(0)
        if not word.startswith("-") or len(word) < 2:
            pos.append(value(word))
        elif word[1] + ":" in optstring:
            arg = word[2:]
            if not arg and words:
                arg = words.pop(0)
            opts[word[1]] = value(arg) if arg else True
        else:
            opts[word[1]] = True
    return readable(opts, pos)


def number_of(it, opts, pos):
    m = re.match(r"%patch(\d*)$", it["name"])
    if not m:
        return None
    if m.group(1):
        return int(m.group(1))
    return opts.get("P", pos[0] if pos else 0)


ATTRS = ["name", "version", "raw_release", "summary", "license", "epoch", "url"]


def same_slices(items):
    """Parts of a list are what taking its items one by one gives."""
    flat = [items[i] for i in range(len(items))]
    for a, b in ((0, None), (1, None), (0, -1), (1, 3)):
        got = list(items[a:b])
        if len(got) != len(flat[a:b]) or any(x is not y and x != y for x, y in zip(got, flat[a:b])):
            raise Mismatch(f"[{a}:{b}] of {items!r} is {got!r}"[:600])


def read_view(spec, view):
    if view.startswith("tags"):
        with tags_view(spec, int(view[4:])) as tags:
            same_slices(tags)
            for q, x in enumerate(tags):
                same_slices(x.comments)
                if tags.get(x.name, x.get_position(tags)) is not x and x not in tags[:q]:
                    raise Mismatch(f"{x.name} at its position is another tag")
            return [[t.name, t.value, t.comments.raw] for t in tags]
    if view == "attrs":
        return {x: getattr(spec, x) for x in ATTRS}
    if view == "md":
        with spec.macro_definitions() as mds:
            same_slices(mds)
            for q, x in enumerate(mds):
                if mds[mds.find(x.name, x.get_position(mds))] is not x and x not in mds[:q]:
                    raise Mismatch(f"{x.name} at its position is another macro definition")
            return [[m.name, m.body, m.commented_out, m.is_global] for m in mds]
    if view == "sections":
        with spec.sections() as sections:
            for s in sections:
                same_slices(s)
            return [[s.id if i else "", list(s)] for i, s in enumerate(sections)]
    if view == "changelog":
        with spec.changelog() as changelog:
            if changelog is None:
                return None
            same_slices(changelog)
            return [[e.header, e.content] for e in reversed(changelog)]
    if view == "prep":
        with spec.prep() as p:
            if p is None:
                return None
            same_slices(p.macros)
            return [
                [
                    m.name, str(m.options), *readable(*options_state(m.options)),
                    m.number if m.name.startswith("%patch") else None,
                ]
                for m in p.macros
            ]
    with (spec.sources() if view == "sources" else spec.patches()) as items:
        return [s.location for s in items]


def model_view(doc, view):
    if view.startswith("tags"):
        sec = find_section(doc, "package", int(view[4:]))
        return [
            [doc[i]["name"], doc[i]["val"], [comment_text(doc[j]) for j in comments_of(doc, i) if j >= sec[1]]]
            for i in of_kind(doc, "tag", sec)
        ]
    if view == "attrs":
        idx = of_kind(doc, "tag", find_section(doc, "package"))
        out = {}
        for x in ATTRS:
            vals = [doc[i]["val"] for i in idx if doc[i]["name"].lower() == x.split("_")[-1]]
            out[x] = vals[0] if vals else None
        return out
    if view == "md":
        return [
            [doc[i]["name"], doc[i]["body"], bool(doc[i]["style"]), doc[i]["kw"] == "global"]
            for i in of_kind(doc, "macro")
        ]
    if view == "sections":
        return [[(h or "%")[1:], lines_of(doc[s:e])] for h, s, e in sections_of(doc)]
    if view == "changelog":
        sec = find_section(doc, "changelog")
        return sec and [[doc[i]["header"], doc[i]["content"]] for i in of_kind(doc, "entry", sec)]
    if view == "prep":
        sec = find_section(doc, "prep")
        return sec and [
            [doc[i]["name"], doc[i]["opts"], *(o := parse_options(doc[i])), number_of(doc[i], *o)]
            for i in of_kind(doc, "prep", sec)
        ]
    prefix, lst = ("source", "sourcelist") if view == "sources" else ("patch", "patchlist")
    out = [
        doc[i]["val"]
        for i in of_kind(doc, "tag", find_section(doc, "package"))
        if re.match(prefix + r"\d*$", doc[i]["name"], re.I)
    ]
    sec = find_section(doc, lst)
    if sec:
        out += [doc[i]["l"] for i in of_kind(doc, "src", sec)]
    return out


VIEWS = ["tags0", "md", "sections", "changelog", "prep", "sources", "patches"]


# -- edits ----------------------------------------------------------------------------------------


class Edit:
    """What to call, and what may become of the document."""

    def __init__(self, fn, views=(), check=None, **allowed):
        self.fn = fn
        self.views = views
        self.allowed = allowed
        self.check = check


def index_how(how, i, n):
    """The same position addressed from the front or from the back."""
    return i if how % 2 else i - n


def by_name(spec, view, names, p):
    """
    Which of the items of that name the name alone stands for: the first one outside of false
    branches, or the first one if there is none.
    """
    same = [q for q, x in enumerate(names) if x == names[p]]
    with (spec.macro_definitions() if view == "md" else tags_view(spec, int(view[4:]))) as items:
        return next((q for q in same if items[q].valid), same[0])


def plan(doc, op, spec):
    """An Edit, or None if there is nothing of that kind to edit."""
    kind, n, m, how, v = op["kind"], op["n"], op["m"], op["how"], op["v"]
    sub = kind.startswith(("tag_", "com_")) and m % 4 == 0 and find_section(doc, "package", 1)
    nth = 1 if sub else 0
    view = f"tags{nth}"
    sec = find_section(doc, "package", nth)
    if kind == "noop":
        which = (VIEWS + ["tags1"] * bool(find_section(doc, "package", 1)))[n % (len(VIEWS) + bool(find_section(doc, "package", 1)))]
        return Edit(lambda: read_view(spec, which), [which])
    if kind.startswith(("tag_", "com_")):
        idx = of_kind(doc, "tag", sec)
        names = [doc[i]["name"].lower() for i in idx]
        if not idx:
            return None
        p = n % len(idx)
        i = idx[p]
        it = doc[i]
        attr = it["name"].isidentifier() and names[p] not in ("data",)
        if kind == "tag_set" and attr and how % 3 < 2 and names.count(names[p]) > 1:
            p = by_name(spec, view, names, p)
            i = idx[p]
            it = doc[i]
        if kind == "tag_set":
            new = f"new{v}" if names[p] not in ("release", "epoch") else f"{v + 2}"
            if m % 7 == 0 and names[p] in ("provides", "requires", "recommends"):
                new = f"exp%{{?undef_macro: \n}}-{v}"
                if it["suf"].strip():
                    new = f"new{v}"

            def fn():
                with tags_view(spec, nth) as tags:
                    if attr and how % 3 == 0:
                        getattr(tags, it["name"].lower()).value = new
                    elif attr and how % 3 == 1 and m % 4:
                        setattr(tags, it["name"].lower(), new)
                    elif how % 3 == 1 or m % 5 == 0:
                        # another tag takes its place
                        t = copy.deepcopy(getattr(tags, it["name"].lower()) if attr and how % 3 == 1 else tags[p])
                        t.value = new
                        if attr and how % 3 == 1:
                            setattr(tags, it["name"].lower(), t)
                        else:
                            tags[index_how(how // 3, p, len(tags))] = t
                    else:
                        tags[index_how(how // 3, p, len(tags))].value = new

            return Edit(fn, [view], replaced={i: dict(it, val=new)})
        if kind == "tag_name":
            if it["name"].lower() not in ("requires", "buildrequires", "provides", "recommends"):
                return None
            new = ["Supplements", "Enhances", "Suggests", "Conflicts"][m % 4]

            def fn():
                with tags_view(spec, nth) as tags:
                    tags[index_how(how, p, len(tags))].name = new

            return Edit(fn, [view], replaced={i: dict(it, name=new)})
        if kind == "tag_del":
            span = [p]
            mode = how % 6
            if mode == 3:
                span = list(range(p, min(len(idx), p + 1 + m % 3)))
            if any(names[q] in MANDATORY for q in span):
                span = [q for q in span if names[q] not in MANDATORY][:1]
                if not span:
                    return None
            q = span[0]
            it = doc[idx[q]]
            attr = it["name"].isidentifier()
            if mode == 0 and attr and names.count(names[q]) > 1:
                q = by_name(spec, view, names, q)
                it = doc[idx[q]]
                span = [q]

            def fn():
                with tags_view(spec, nth) as tags:
                    if mode == 0 and attr:
                        delattr(tags, it["name"].lower())
                    elif mode == 1:
                        tags.pop(index_how(m, q, len(tags)))
                    elif mode == 2:
                        tags.remove(tags[q])
                    elif mode == 3:
                        if m % 2:
                            del tags[span[0] : span[-1] + 1]
                        else:
                            del tags[span[0] - len(tags) : (span[-1] + 1 - len(tags)) or None]
                    else:
                        del tags[index_how(m, q, len(tags))]

            gone = {idx[x] for x in span}
            maybe = {j for g in gone for j in comments_of(doc, g) if j >= sec[1]}
            return Edit(fn, [view], gone=gone, maybe=maybe)
        if kind == "tag_add":
            p = n % (len(idx) + 1)
            new = tag(["Requires", "Provides", "BuildRequires"][m % 3], f"add-{v}", [": ", ":", ":    "][how % 3])

            def fn():
                from specfile.tags import Comments, Tag

                with tags_view(spec, nth) as tags:
                    t = Tag(new["name"], new["val"], new["sep"], Comments())
                    if p == len(tags) and how % 2:
                        tags.append(t)
                    elif p == len(tags) and how % 4 == 0:
                        tags.insert(p + 5, t)
                    else:
                        tags.insert(p, t)

            def check(after):
                vals = [after[j]["val"] for j in of_kind(after, "tag", find_section(after, "package", nth))]
                if vals.index(new["val"]) != p:
                    # a list made by append() goes last, whatever that is in the text
                    raise Mismatch(f"new tag is number {vals.index(new['val'])}, not {p}")

            return Edit(fn, [view], check, new=[new])
        coms = [j for j in comments_of(doc, i) if j >= sec[1]]
        if kind == "com_add":
            at = m % (len(coms) + 1)
            new = raw(f"# remark {v}")

            def fn():
                with tags_view(spec, nth) as tags:
                    cs = tags[p].comments
                    if at == len(coms) and how % 2:
                        cs.append(f"remark {v}")
                    elif at == len(coms) and how % 3 == 0:
                        cs.extend([f"remark {v}"])
                    else:
                        cs.insert(at, f"remark {v}")

            where = coms[at] if at < len(coms) else i
            return Edit(fn, [view], exact=doc[:where] + [new] + doc[where:])
        if not coms:
            return None
        at = m % len(coms)
        j = coms[at]
        if kind == "com_del":
            everything = how % 5 == 0

            def fn():
                with tags_view(spec, nth) as tags:
                    cs = tags[p].comments
                    if everything:
                        cs.clear()
                    elif how % 3 == 0:
                        cs.pop(index_how(how // 3, at, len(cs)))
                    else:
                        del cs[index_how(how // 3, at, len(cs))]

            drop = coms if everything else [j]
            return Edit(fn, [view], exact=[x for q, x in enumerate(doc) if q not in drop])
        if doc[j]["k"] != "raw":
            return None
        line = re.match(r"^(\s*#\s*)", doc[j]["l"]).group(1) + f"reworded {v}"

        if how % 12 in (6, 8, 10) and at + 1 < len(coms) and doc[coms[at + 1]]["k"] == "raw":
            # two at once
            second = re.match(r"^(\s*#\s*)", doc[coms[at + 1]]["l"]).group(1) + f"also {v}"
            if how % 12 == 10:
                line, second = f"#-reworded {v}", f"##  also {v}"

            def fn():
                from specfile.tags import Comment

                with tags_view(spec, nth) as tags:
                    new = [f"reworded {v}", f"also {v}"]
                    if how % 12 == 10:
                        new = [Comment(new[0], "#-"), Comment(new[1], "##  ")]
                    tags[p].comments[at : at + 2] = new

            return Edit(fn, [view], replaced={j: raw(line), coms[at + 1]: raw(second)})
        if how % 12 == 9:
            line = f"#. reworded {v}"

        def fn():
            from specfile.tags import Comment

            with tags_view(spec, nth) as tags:
                if how % 12 == 9:
                    tags[p].comments[index_how(m, at, len(coms))] = Comment(f"reworded {v}", "#. ")
                elif how % 6 == 5:
                    tags[p].comments[at : at + 1] = [f"reworded {v}"]
                elif how % 2:
                    tags[p].comments[index_how(how // 2, at, len(coms))] = f"reworded {v}"
                else:
                    tags[p].comments[at].text = f"reworded {v}"

        return Edit(fn, [view], replaced={j: raw(line)})
    if kind.startswith("md_"):
        idx = of_kind(doc, "macro")
        if kind == "md_add":
            p = n % (len(idx) + 1)
            new = macro(f"new_{v}", f"val{v}", "global" if m % 2 else "define")

            def fn():
                from specfile.macro_definitions import CommentOutStyle, MacroDefinition

                with spec.macro_definitions() as mds:
                    md = MacroDefinition(
                        new["name"], new["body"], new["kw"] == "global", False, CommentOutStyle.DNL,
                        ("", " ", " ", ""),
                    )
                    if p == len(mds) and how % 2:
                        mds.append(md)
                    elif p == len(mds) and how % 4 == 0:
                        mds.insert(p + 5, md)
                    else:
                        mds.insert(p, md)

            def check(after):
                names = [after[j]["name"] for j in of_kind(after, "macro")]
                if names.index(new["name"]) != p:
                    raise Mismatch(f"new macro definition is number {names.index(new['name'])}, not {p}")

            return Edit(fn, ["md"], check, new=[new])
        if not idx:
            return None
        p = n % len(idx)
        i = idx[p]
        it = doc[i]
        attr = it["name"].isidentifier()
        names = [doc[j]["name"] for j in idx]
        if names.count(names[p]) > 1 and (
            kind == "md_set" and (attr and how % 4 < 2 or how % 4 == 2) or kind == "md_del" and how % 6 == 0
        ):
            p = by_name(spec, "md", names, p)
            i = idx[p]
            it = doc[i]
        if kind == "md_set":
            multi = m % 3 == 0 and not it["style"]
            new = f"body{v} \\\n  more" if multi else f"body{v}"

            def fn():
                with spec.macro_definitions() as mds:
                    if attr and how % 4 == 0:
                        getattr(mds, it["name"]).body = new
                    elif attr and how % 4 == 1 and n % 4:
                        setattr(mds, it["name"], new)
                    elif attr and how % 4 == 1:
                        md = copy.deepcopy(getattr(mds, it["name"]))
                        md.body = new
                        setattr(mds, it["name"], md)
                    elif how % 4 == 2:
                        mds.get(it["name"]).body = new
                    else:
                        mds[index_how(how // 4, p, len(mds))].body = new

            return Edit(fn, ["md"], replaced={i: dict(it, body=new)})
        if kind == "md_del":
            mode = how % 6
            span = [p]
            if mode == 3:
                span = list(range(p, min(len(idx), p + 1 + m % 3)))
            if mode == 5 and m % 6 == 0:
                span = list(range(len(idx)))

            def fn():
                with spec.macro_definitions() as mds:
                    if len(span) == len(mds):
                        mds.clear()
                    elif mode == 0 and attr:
                        delattr(mds, it["name"])
                    elif mode == 1:
                        mds.pop(index_how(m, p, len(mds)))
                    elif mode == 2:
                        mds.remove(mds[p])
                    elif mode == 3:
                        del mds[span[0] : span[-1] + 1]
                    else:
                        del mds[index_how(m, p, len(mds))]

            return Edit(fn, ["md"], exact=[x for q, x in enumerate(doc) if q not in {idx[s] for s in span}])
        if kind == "md_kw":
            new = "define" if it["kw"] == "global" else "global"

            def fn():
                with spec.macro_definitions() as mds:
                    mds[p].is_global = new == "global"

            return Edit(fn, ["md"], replaced={i: dict(it, kw=new)})
        # commented out or in again
        if it["style"] == "other" or "\n" in it["body"] or it["pfx"]:
            return None
        if it["style"]:
            after = dict(it, style="")
        else:
            after = dict(it, style=["dnl", "hash"][m % 2])

        def fn():
            from specfile.macro_definitions import CommentOutStyle

            with spec.macro_definitions() as mds:
                md = mds[index_how(how, p, len(mds))]
                if not md.commented_out:
                    md.comment_out_style = CommentOutStyle.HASH if after["style"] == "hash" else CommentOutStyle.DNL
                md.commented_out = not md.commented_out

        return Edit(fn, ["md"], replaced={i: after})
    if kind.startswith("line_") or kind in ("sec_set", "sec_del"):
        names = ["build", "description", "check", "post", "install", "clean"]
        secs = [
            (q, s) for q, s in enumerate(sections_of(doc)) if kind_of(s[0]) in names
            and all(doc[x]["k"] == "raw" for x in range(s[1], s[2]))
        ]
        if kind == "sec_del":
            secs = [x for x in secs if kind_of(x[1][0]) in ("check", "post", "install", "clean")]
        if not secs:
            return None
        q, (header, s, e) = secs[n % len(secs)]

        def norm(h):
            words = (h or "%")[1:].split(" ", 1)
            return " ".join([words[0].lower()] + words[1:]).rstrip()

        ident = norm(header)
        if how % 3 == 0:
            ident = ident.split(" ")[0].upper() + ident[len(ident.split(" ")[0]) :]
        unique = sum(1 for x in sections_of(doc) if norm(x[0]) == norm(header)) == 1
        attr = unique and how % 2
        if kind == "sec_set":
            new = [f"line {v}", "", "  end "][: m % 4]

            def fn():
                with spec.sections() as sections:
                    if attr:
                        setattr(sections, ident, list(new))
                    elif how % 3:
                        sections[q].data = list(new)
                    else:
                        sections[q][:] = list(new)

            return Edit(fn, ["sections"], exact=doc[:s] + [raw(x) for x in new] + doc[e:])
        if kind == "sec_del":

            def fn():
                with spec.sections() as sections:
                    if attr:
                        delattr(sections, ident)
                    elif how % 3 == 0:
                        sections.pop(q)
                    else:
                        del sections[index_how(how // 6, q, len(sections))]

            return Edit(fn, ["sections"], exact=doc[: s - 1] + doc[e:])
        if kind == "line_add":
            at = m % (e - s + 1)

            def fn():
                with spec.sections() as sections:
                    sec = getattr(sections, ident) if attr else sections[q]
                    sec.insert(at, f"line {v}")

            return Edit(fn, ["sections"], exact=doc[: s + at] + [raw(f"line {v}")] + doc[s + at :])
        if s == e:
            return None
        at = m % (e - s)

        def fn():
            with spec.sections() as sections:
                sec = getattr(sections, ident) if attr else sections[q]
                if kind == "line_set":
                    sec[index_how(how // 2, at, len(sec))] = f"line {v}"
                else:
                    del sec[index_how(how // 2, at, len(sec))]

        mid = [raw(f"line {v}")] if kind == "line_set" else []
        return Edit(fn, ["sections"], exact=doc[: s + at] + mid + doc[s + at + 1 :])
    if kind == "sec_add":
        have = [kind_of(s[0]) for s in sections_of(doc)]
        name = [x for x in ("check", "pre", "preun", "postun", "generate_buildrequires") if x not in have]
        if not name or "changelog" not in have:
            return None
        name = name[m % len(name)]
        q = have.index("changelog")
        at = sections_of(doc)[q][1] - 1

        def fn():
            from specfile.sections import Section

            with spec.sections() as sections:
                sections.insert(q, Section(name, data=["true", ""]))

        new = [{"k": "sec", "l": "%" + name}, raw("true"), raw("")]
        return Edit(fn, ["sections"], exact=doc[:at] + new + doc[at:])
    if kind == "sec_move":
        # a section taken out and put elsewhere keeps its lines
        secs = sections_of(doc)
        cand = [q for q, s in enumerate(secs) if kind_of(s[0]) in ("check", "build", "install", "post", "clean")]
        if not cand:
            return None
        q = cand[n % len(cand)]
        header, s, e = secs[q]
        at = secs[-1][1] - 1 if kind_of(secs[-1][0]) == "changelog" else len(doc)
        if q >= len(secs) - 2:
            return None

        def fn():
            with spec.sections() as sections:
                sec = sections.pop(q)
                if kind_of(secs[-1][0]) == "changelog":
                    sections.insert(len(sections) - 1, sec)
                else:
                    sections.append(sec)

        return Edit(fn, ["sections"], exact=doc[: s - 1] + doc[e:at] + doc[s - 1 : e] + doc[at:])
    if kind == "sec_opt":
        q, s = next((q, s) for q, s in enumerate(sections_of(doc)) if kind_of(s[0]) == "files")
        new = [f"list{v}", f"li st {v}", None][m % 3]
        state = {}

        def fn():
            with spec.sections() as sections:
                sec = sections[q]
                state["before"] = options_state(sec.options)
                if new is None:
                    del sec.options.f
                else:
                    sec.options.f = new

        return Edit(fn, ["sections"], check_files(spec, q, s[1] - 1, new, state), files=s[1] - 1)
    if kind.startswith("cl_"):
        sec = find_section(doc, "changelog")
        if not sec:
            return None
        idx = of_kind(doc, "entry", sec)
        if kind == "cl_add":
            p = n % (len(idx) + 1)  # from the top
            new = entry(f"* Tue Feb 06 2024 C D <c@d.e> - 9-{v}", [f"- new {v}"])

            def fn():
                from specfile.changelog import ChangelogEntry

                with spec.changelog() as changelog:
                    e = ChangelogEntry(new["header"], new["content"], [""] if how % 2 else None)
                    at = len(changelog) - p
                    if p == 0 and how % 3:
                        changelog.append(e)
                    else:
                        changelog.insert(at, e)

            def check(after):
                hs = [after[j]["header"] for j in of_kind(after, "entry")]
                if hs.index(new["header"]) != p:
                    raise Mismatch(f"new entry is number {hs.index(new['header'])} from the top, not {p}")

            return Edit(fn, ["changelog"], check, new=[new])
        if not idx:
            return None
        p = n % len(idx)
        r = len(idx) - 1 - p  # entries count from the bottom
        it = doc[idx[p]]
        if kind == "cl_set":
            if m % 2:
                after = dict(it, header=f"* Wed Mar 06 2024 E F <e@f.g> - 8-{v}")
            else:
                after = dict(it, content=it["content"] + [f"- more {v}"])

            def fn():
                with spec.changelog() as changelog:
                    e = changelog[index_how(how, r, len(changelog))]
                    if how % 5 == 0:
                        e = changelog[r] = copy.deepcopy(e)
                    if m % 2:
                        e.header = after["header"]
                    else:
                        e.content.append(f"- more {v}")

            return Edit(fn, ["changelog"], replaced={idx[p]: after})
        span = [p]
        mode = how % 6
        if mode == 3:
            span = list(range(p, min(len(idx), p + 1 + m % 3)))
        if mode == 5 and m % 4 == 0:
            span = list(range(len(idx)))

        def fn():
            with spec.changelog() as changelog:
                size = len(changelog)
                if len(span) == size and mode == 5:
                    changelog.clear()
                elif mode == 1:
                    changelog.pop(index_how(m, r, size))
                elif mode == 2:
                    changelog.remove(changelog[r])
                elif mode == 3:
                    del changelog[size - 1 - span[-1] : size - span[0]]
                else:
                    del changelog[index_how(m, r, size)]

        return Edit(fn, ["changelog"], gone={idx[x] for x in span})
    if kind.startswith("pm_"):
        sec = find_section(doc, "prep")
        if not sec:
            return None
        idx = of_kind(doc, "prep", sec)
        if kind == "pm_add":
            if not idx:
                # it would end up outside of the false condition
                return None
            num = 50 + v
            first = doc[idx[0]]
            if first["name"].startswith("%patch") and (patch_number(first) is None or patch_number(first) > num):
                # as it would if it went to the front
                return None
            style = how % 3
            if style == 0:
                new = prep("%patch", f"{num} -p1")
            elif style == 1:
                new = prep(f"%patch{num}", "-p2")
            else:
                new = prep("%patch", f"-P{num} -p1")

            def fn():
                with spec.prep() as pr:
                    if style == 0:
                        pr.add_patch_macro(num, p=1)
                    elif style == 1:
                        pr.add_patch_macro(num, old_style_number=True, p=2)
                    else:
                        pr.add_patch_macro(P=num, p=1)

            return Edit(fn, ["prep"], new=[new])
        if not idx:
            return None
        p = n % len(idx)
        i = idx[p]
        it = doc[i]
        if kind == "pm_rm":
            nums = [patch_number(doc[j]) for j in idx]
            cand = [x for x in nums if x is not None]
            if not cand:
                return None
            num = cand[m % len(cand)]

            def fn():
                with spec.prep() as pr:
                    pr.remove_patch_macro(num)

            return Edit(fn, ["prep"], exact=[x for q, x in enumerate(doc) if q != idx[nums.index(num)]])
        if kind == "pm_del":
            mode = how % 6
            span = [p]
            if mode == 3:
                span = list(range(p, min(len(idx), p + 1 + m % 3)))
            names = [doc[j]["name"] for j in idx]

            def fn():
                with spec.prep() as pr:
                    ms = pr.macros
                    if mode == 0 and names.count(names[p]) == 1:
                        delattr(pr if m % 2 else ms, names[p][1:])
                    elif mode == 1:
                        ms.pop(index_how(m, p, len(ms)))
                    elif mode == 2 and m % 5 == 0 and len(ms) == 1:
                        ms.clear()
                    elif mode == 3:
                        del ms[span[0] : span[-1] + 1]
                    else:
                        del ms[index_how(m, p, len(ms))]

            return Edit(fn, ["prep"], exact=[x for q, x in enumerate(doc) if q not in {idx[s] for s in span}])
        state = {}
        patchy = it["name"].startswith("%patch")
        if kind == "pm_num":
            opts, pos = parse_options(it)
            if not patchy or it["name"] == "%patch" and "P" not in opts and pos and not isinstance(pos[0], int):
                return None
            num = 60 + v

            def fn():
                with spec.prep() as pr:
                    pr.macros[p].number = num

            if it["name"] != "%patch" or "P" not in opts and not pos:
                return Edit(fn, ["prep"], replaced={i: dict(it, name=f"%patch{num}")})

            def check(after):
                with spec.prep() as pr:
                    got = readable(*options_state(pr.macros[p].options))
                want = (dict(opts, P=num), pos) if "P" in opts else (opts, [num] + pos[1:])
                if got != want:
                    raise Mismatch(f"options are {got} instead of {want}")

            return Edit(fn, ["prep"], check, options=i)
        if kind == "pm_opt":
            choices = {
                "%setup": [("n", f"dir{v}"), ("n", f"d i r{v}"), ("q", True), ("q", False), ("c", True), ("n", None), ("a", v), ("D", None)],
                "%autosetup": [("p", v), ("n", f"dir{v}"), ("S", "git"), ("N", True), ("N", False), ("n", None), ("p", None)],
                "%patch": [("p", v), ("b", f".b{v}"), ("R", True), ("R", False), ("p", None), ("b", None), ("b", f". b{v}"), ("E", True)],
                "%autopatch": [("p", v), ("m", v), ("M", v), ("v", True), ("v", False), ("p", None), ("m", None)],
            }["%patch" if patchy else it["name"]]
            name, value = choices[m % len(choices)]

            def fn():
                with spec.prep() as pr:
                    options = pr.macros[p].options
                    state["before"] = options_state(options)
                    if value is None or value is False and how % 2:
                        if how % 7 == 3:
                            setattr(options, name, None)
                        elif how % 4 < 2:
                            delattr(options, name)
                        else:
                            del options[name]
                    elif how % 2:
                        setattr(options, name, value)
                    else:
                        options[name] = value

            def expect(opts, pos):
                opts = dict(opts)
                opts.pop(name, None)
                if value is not None and value is not False:
                    opts[name] = value
                return opts, pos

        else:
            if not patchy or " || " in it["opts"]:
                return None
            act = how % 7
            val = v
            if act == 6:
                val = f"w {v}"

            def fn():
                with spec.prep() as pr:
                    options = pr.macros[p].options
                    state["before"] = options_state(options)
                    pos = options.positional
                    if act in (0, 6):
                        pos.append(val)
                    elif act == 1:
                        pos.insert(0, val)
                    elif act == 4:
                        del pos[1:]
                    elif act == 5:
                        pos[:1] = [val] * len(pos[:1])
                    elif len(pos) and act == 2:
                        pos[0] = val
                    elif len(pos):
                        del pos[0]

            def expect(opts, pos):
                pos = list(pos)
                if act in (0, 6):
                    pos.append(val)
                elif act == 1:
                    pos.insert(0, val)
                elif act == 4:
                    del pos[1:]
                elif act == 5:
                    pos[:1] = [val] * len(pos[:1])
                elif pos and act == 2:
                    pos[0] = val
                elif pos:
                    del pos[0]
                return opts, pos

        def check(after):
            with spec.prep() as pr:
                got = options_state(pr.macros[p].options)
            want = expect(*state["before"])
            if got != want:
                raise Mismatch(f"options are {got} instead of {want}")

        return Edit(fn, ["prep"], check, options=i)
    if kind.startswith("src_"):
        view = "sources" if m % 2 else "patches"
        prefix, lst = ("source", "sourcelist") if m % 2 else ("patch", "patchlist")
        pre = find_section(doc, "package")
        lsec = find_section(doc, lst)
        idx = [i for i in of_kind(doc, "tag", pre) if re.match(prefix + r"\d*$", doc[i]["name"], re.I)]
        idx += of_kind(doc, "src", lsec) if lsec else []

        def container():
            return spec.sources() if view == "sources" else spec.patches()

        if kind == "src_add":
            p = n % (len(idx) + 1)
            loc = f"added-{v}.txt"
            into_list = bool(lsec) and (
                not idx or doc[idx[min(p, len(idx) - 1)]]["k"] == "src"
            )
            if into_list:
                new = {"k": "src", "l": loc}
            else:
                new = tag(prefix.capitalize(), loc)

            def fn():
                with container() as items:
                    if p == len(items) and how % 2:
                        items.append(loc)
                    else:
                        items.insert(p, loc)

            return Edit(fn, [view], new=[new], relaxed=True)
        if not idx:
            return None
        p = n % len(idx)
        it = doc[idx[p]]
        loc = it.get("val") or it["l"]
        if kind == "src_set":

            def fn():
                with container() as items:
                    if how % 2:
                        items[index_how(how // 2, p, len(items))].location = f"moved-{v}.txt"
                    else:
                        items[index_how(how // 2, p, len(items))] = f"moved-{v}.txt"

            after = dict(it, val=f"moved-{v}.txt") if it["k"] == "tag" else dict(it, l=f"moved-{v}.txt")
            return Edit(fn, [view], replaced={idx[p]: after})

        def fn():
            with container() as items:
                if how % 4 == 0:
                    items.remove(loc)
                elif how % 4 == 1:
                    items.pop(index_how(how // 4, p, len(items)))
                else:
                    del items[index_how(how // 4, p, len(items))]

        return Edit(fn, [view], gone={idx[p]}, maybe={j for j in comments_of(doc, idx[p])})
    idx = of_kind(doc, "tag", sec)
    by = {doc[i]["name"].lower(): i for i in idx}
    if kind == "attr":
        attr = ["version", "license", "summary", "url", "name", "epoch", "raw_release"][n % 7]
        name = attr[4:] if attr == "raw_release" else attr
        if name not in by or sum(1 for i in idx if doc[i]["name"].lower() == name) > 1:
            return None
        val = f"{v}" if name in ("epoch", "release") else f"attr{v}"

        def fn():
            setattr(spec, attr, val)

        return Edit(fn, ["tags0", "attrs"], replaced={by[name]: dict(doc[by[name]], val=val)})
    if kind == "missing":
        # what is not there can't be read or deleted by name
        def fn():
            from specfile.exceptions import OptionsException

            def refused(call, *args):
                try:
                    call(*args)
                except (AttributeError, ValueError, OptionsException):
                    return
                raise Mismatch(f"{call.__name__}{args[1:]} of something that is not there succeeded")

            with spec.tags() as tags, spec.macro_definitions() as mds, spec.prep() as pr:
                for items in (tags, mds):
                    refused(getattr, items, "nosuch")
                    refused(delattr, items, "nosuch")
                    refused(items.find, "nosuch")
                    refused(items.find, items[0].name if items else "x", 12345)
                if pr is not None:
                    refused(getattr, pr.macros, "patch999")
                    refused(delattr, pr.macros, "patch999")
                    refused(delattr, pr, "patch999")
                    if "%patch999" in pr or "%patch999" in pr.macros:
                        raise Mismatch("a macro that is not there is said to be")
                    for x in pr.macros:
                        # an option has an argument or is a flag
                        refused(setattr, x.options, "q" if x.name == "%setup" else "v" if x.name.startswith("%auto") else "R", "x")
                        refused(setattr, x.options, "n" if "setup" in x.name else "p", True)
                        refused(setattr, x.options, "n" if "setup" in x.name else "p", False)
                    if any(x.name not in pr for x in pr.macros):
                        raise Mismatch("a macro that is there is said not to be")
            with spec.sections() as sections:
                refused(getattr, sections, "nosuch")
                refused(delattr, sections, "nosuch")
                refused(sections.find, "nosuch")

        return Edit(fn, VIEWS[n % len(VIEWS) :][:1])
    if kind == "vr":
        rel = doc[by["release"]]["val"]
        dist = "%{?dist}" if "%{?dist}" in rel else ""
        after = {by["release"]: dict(doc[by["release"]], val=f"{v + 5}{dist}")}
        if n % 2:
            after[by["version"]] = dict(doc[by["version"]], val=f"2.{v}")

        def fn():
            if n % 2:
                spec.set_version_and_release(f"2.{v}", f"{v + 5}")
            else:
                spec.release = f"{v + 5}"

        return Edit(fn, ["tags0"], replaced=after)
    if kind == "add_patch":
        if find_section(doc, "patchlist"):
            return None
        new = tag("Patch", f"extra-{v}.patch")
        com = raw(f"# why {v}")

        def fn():
            spec.add_patch(new["val"], comment=f"why {v}" if m % 2 else None)

        return Edit(fn, ["patches"], new=[com, new] if m % 2 else [new], relaxed=True)
    if kind == "add_entry":
        sec = find_section(doc, "changelog")
        if not sec:
            return None

        def fn():
            import datetime

            spec.add_changelog_entry(
                f"- done {v}", author="G H", email="g@h.i", timestamp=datetime.date(2024, 5, 6), evr=f"7-{v}"
            )

        pads = [re.match(r"\* \w+ \w+ ( *)(0?)", doc[i]["header"]) for i in of_kind(doc, "entry", sec)]
        heads = [f"* Mon May {x}6 2024 G H <g@h.i> - 7-{v}" for x in ("0", " ", "", "  ", " 0")]
        return Edit(fn, ["changelog"], None, entry=[entry(h, [f"- done {v}"]) for h in heads])
    raise AssertionError(kind)


def patch_number(it):
    m = re.match(r"%patch(\d+)$", it["name"])
    if m:
        return int(m.group(1))
    if it["name"] != "%patch":
        return None
    m = re.match(r"(?:.*\s)?-P\s*(\d+)", it["opts"])
    if m:
        return int(m.group(1))
    m = re.match(r"(\d+)(\s|$)", it["opts"])
    if m:
        return int(m.group(1))
    # options may have been edited beyond recognition
    return None


def check_files(spec, q, i, new, state):
    def check(after):
        with spec.sections() as sections:
            got = options_state(sections[q].options)
        opts, pos = state["before"]
        opts = dict(opts)
        # the last of several is the one that counts
        if new is not None:
            opts["f"] = new
        elif after[i]["l"].count("-f"):
            opts["f"] = got[0].get("f")
        else:
            opts.pop("f", None)
        if got != (opts, pos):
            raise Mismatch(f"options of %files are {got} instead of {(opts, pos)}")

    return check


def judge(edit, doc, lines):
    """The new document if `lines` is what the edit makes of `doc`; raises Mismatch."""
    a = edit.allowed
    if "exact" in a:
        return sync(a["exact"], lines)
    if "entry" in a:
        err = None
        for e in a["entry"]:
            try:
                return sync(doc, lines, new=[e])
            except Mismatch as x:
                err = err or x
        raise err
    if "options" in a or "files" in a:
        i = a.get("options", a.get("files"))
        at = len(lines_of(doc[:i]))
        if at >= len(lines):
            raise Mismatch("document ends early")
        line = lines[at]
        it = doc[i]
        if it["k"] == "sec":
            if not re.match(r"%files(\s|$)", line):
                raise Mismatch(f"{line!r} instead of a %files header")
            return sync(doc, lines, replaced={i: dict(it, l=line)})
        head = it["pre"] + it["name"]
        if not line.startswith(head) or not line.endswith(it["suf"]):
            raise Mismatch(f"{line!r} is not {head!r}...{it['suf']!r}")
        rest = line[len(head) : len(line) - len(it["suf"])]
        delim = re.match(r"\s*", rest).group(0)
        return sync(doc, lines, replaced={i: dict(it, delim=delim, opts=rest[len(delim) :])})
    return sync(doc, lines, **a)


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]
    clients = {}

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
        return "other"

    K.classify_path = classify
    for c, doc in enumerate(cfg["docs"]):
        nl = cfg["nl"][c]
        lines = lines_of(doc)
        if not nl and lines and lines[-1] == "":
            nl = True
        w.write(f"s{c}.spec", "\n".join(lines) + ("\n" if nl else ""))
        spec = w.call("new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"))).value
        if spec is None:
            # not a document RPM accepts
            w.probe("document refused")
            continue
        clients[c] = {"spec": spec, "doc": doc, "nl": nl, "saved": doc}
    for op in trace["ops"]:
        cl = clients.get(op["c"])
        if cl is None:
            continue
        w.ops_done += 1
        spec, doc = cl["spec"], cl["doc"]
        if op["op"] == "save":
            w.must("save", spec.save)
            cl["saved"] = doc
        elif op["op"] == "reload":
            w.must("reload", spec.reload)
            doc = cl["saved"]
            if not cl["nl"] and lines_of(doc)[-1:] == [""]:
                # an empty last line with no newline after it is a newline once it is read back
                cl["nl"], doc = True, doc[:-1]
            cl["doc"] = cl["saved"] = doc
        else:
            edit = plan(doc, op, spec)
            if edit is None:
                w.probe("nothing to edit")
                continue
            step(w, cl, op, edit)
        verify(w, clients)
    for c, cl in clients.items():
        for view in VIEWS + ["attrs"] + ["tags1"] * bool(find_section(cl["doc"], "package", 1)):
            readback(w, cl, view, "at the end")
    verify(w, clients)


def text_lines(text, nl):
    """Lines of a text that has (or has not) a final newline; raises Mismatch."""
    if nl:
        if not text.endswith("\n"):
            raise Mismatch("final newline is gone")
        text = text[:-1]
    return text.split("\n")


def verify(w, clients):
    for c, cl in clients.items():
        lines = text_lines(str(cl["spec"]), cl["nl"])
        if lines != lines_of(cl["doc"]):
            raise Violation("other-changed", f"spec {c} changed without being edited: {first_diff(lines, lines_of(cl['doc']))}")


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return f"line {i + 1}: {x!r} instead of {y!r}"
    return "same"


def readback(w, cl, view, when):
    got = w.must(f"read {view}", lambda: read_view(cl["spec"], view))
    want = model_view(cl["doc"], view)
    if got != want:
        diff = ""
        if got is not None and want is not None:
            diff = next((f"{g!r} instead of {x!r}" for g, x in zip(got, want) if g != x), f"{len(got)} items instead of {len(want)}")
        raise Violation("readback", f"{when}: fresh view {view} does not show the document: {diff}"[:1500])


def step(w, cl, op, edit):
    spec, doc = cl["spec"], cl["doc"]
    before = str(spec)
    out = w.call(op["kind"], edit.fn, op.get("faults"))
    text = str(spec)
    if out.exc is not None and not out.fired:
        raise Violation("unexpected-exception", f"{op['kind']} failed without a fault: {out.desc()}")
    if out.exc is not None and text == before:
        w.probe("failed edit left no trace")
        return
    try:
        lines = text_lines(text, cl["nl"])
        after = judge(edit, doc, lines)
        cl["doc"] = after
        if edit.check:
            edit.check(after)
    except Mismatch as e:
        raise Violation("collateral", f"{op['kind']}: {e}; the edit: {json.dumps({k: op[k] for k in ('kind', 'n', 'm', 'how', 'v')})}")
    if lines != lines_of(after):
        raise Violation("collateral", f"{op['kind']}: {first_diff(lines, lines_of(after))}")
    w.probe("edit: " + op["kind"])
    if not out.ok:
        w.probe("failed edit was complete")
    for view in edit.views:
        readback(w, cl, view, op["kind"])
