"""
Operations of the public API, described by JSON, applied to a spec.

The same description runs under the simulator, on a twin in a fresh process, or again.
`apply` returns a value made of JSON types.
"""

import datetime


def _v(x):
    return None if x is None else str(x)


def r_expand(s, o):
    extra = [tuple(m) for m in o["extra"]] if o.get("extra") else None
    return s.expand(o["expr"], extra_macros=extra)


def r_tags(s, o):
    with s.tags() as t:
        return [[x.name, x.value, x.valid, [c.text for c in x.comments]] for x in t]


def r_tagsx(s, o):
    with s.tags() as t:
        return [[x.name, x.expanded_value] for x in t]


def _srcs(view):
    return [
        [x.number, x.location, x.expanded_location, x.filename, x.valid] for x in view
    ]


def r_sources(s, o):
    with s.sources() as x:
        return _srcs(x)


def r_patches(s, o):
    with s.patches() as x:
        return _srcs(x)


def r_sections(s, o):
    with s.sections() as x:
        return [[y.id, len(y), y.get_raw_data() if hasattr(y, "get_raw_data") else None] for y in x]


def r_psections(s, o):
    return [[y.id, list(y)] for y in s.parsed_sections]


def r_changelog(s, o):
    with s.changelog() as c:
        return None if c is None else [[e.header, list(e.content), e.evr] for e in c]


def r_prep(s, o):
    with s.prep() as p:
        return None if p is None else [[m.name, str(m.options)] for m in p.macros]


def r_macros(s, o):
    with s.macro_definitions() as m:
        return [[x.name, x.body, x.is_global, x.commented_out, x.valid] for x in m]


def r_props(s, o):
    return [
        _v(getattr(s, p))
        for p in (
            "name",
            "version",
            "release",
            "raw_release",
            "epoch",
            "summary",
            "license",
            "url",
            "expanded_name",
            "expanded_version",
            "expanded_raw_release",
            "expanded_release",
            "expanded_epoch",
            "expanded_summary",
            "expanded_license",
            "expanded_url",
        )
    ]


def r_header(s, o):
    h = s.rpm_spec.sourceHeader
    return [_v(h[k]) for k in ("name", "version", "release", "epoch", "summary")]


def r_parsed(s, o):
    return s.rpm_spec.parsed


def r_prepscript(s, o):
    return s.rpm_spec.prep


def r_active(s, o):
    names = set(o["names"])
    return sorted([m.name, m.body] for m in s.get_active_macros() if m.name in names)


def r_flags(s, o):
    return [s.has_autorelease, s.has_autochangelog, s.tainted]


def r_text(s, o):
    return str(s)


def r_eq(s, o):
    import copy

    c = copy.deepcopy(s)
    return [c == s, str(c) == str(s), c.expand("%{name}")]


# -- edits ---------------------------------------------------------------------------


def w_prop(s, o):
    setattr(s, o["name"], o["value"])


def w_settag(s, o):
    with s.tags() as t:
        getattr(t, o["name"]).value = o["value"]


def w_settag2(s, o):
    """Two tags, with an evaluation in between."""
    with s.tags() as t:
        first = t.summary.expanded_value
        t.summary.value = o["value"]
        return [first, t.version.expanded_value, [x.expanded_value for x in t][:3]]


def w_addtag(s, o):
    from specfile.tags import Comments, Tag

    with s.tags() as t:
        t.insert(
            o["at"] % (len(t) + 1), Tag(o["name"], o["value"], ": ", Comments(), context=s)
        )


def w_deltag(s, o):
    with s.tags() as t:
        if o["name"] in t:
            del t[t.find(o["name"])]


def w_comment(s, o):
    with s.tags() as t:
        t[o["at"] % len(t)].comments.append(o["text"])


def w_add_patch(s, o):
    s.add_patch(
        o["location"],
        number=o.get("number"),
        comment=o.get("comment"),
        number_digits=o.get("digits", 4),
    )


def _view(s, o):
    return s.patches() if o.get("patches") else s.sources()


def w_src_append(s, o):
    with _view(s, o) as x:
        x.append(o["location"])


def w_src_insert(s, o):
    with _view(s, o) as x:
        x.insert(o["at"], o["location"])


def w_src_numbered(s, o):
    with _view(s, o) as x:
        return x.insert_numbered(o["number"], o["location"])


def w_src_set(s, o):
    with _view(s, o) as x:
        if len(x):
            x[o["at"] % len(x)].location = o["location"]


def w_src_remove(s, o):
    with _view(s, o) as x:
        x.remove(o["location"])


def w_src_remove_numbered(s, o):
    with _view(s, o) as x:
        x.remove_numbered(o["number"])


def w_src_del(s, o):
    with _view(s, o) as x:
        if len(x):
            del x[o["at"] % len(x)]


def w_src_eval(s, o):
    """Adds one and evaluates all inside the block."""
    with _view(s, o) as x:
        x.append(o["location"])
        return _srcs(x)


def w_clog_add(s, o):
    s.add_changelog_entry(
        o["text"],
        author=o["author"],
        email=o.get("email"),
        timestamp=datetime.date(*o["date"]),
        evr=o.get("evr"),
    )


def w_clog_edit(s, o):
    with s.changelog() as c:
        if c:
            c[o["at"] % len(c)].content.insert(0, o["text"])


def w_clog_del(s, o):
    with s.changelog() as c:
        if c and len(c) > 1:
            del c[o["at"] % len(c)]


def w_prep_add(s, o):
    with s.prep() as p:
        if p is not None:
            p.add_patch_macro(o["number"], p=o.get("p", 1))


def w_prep_remove(s, o):
    with s.prep() as p:
        if p is not None:
            p.remove_patch_macro(o["number"])


def w_prep_opt(s, o):
    with s.prep() as p:
        if p is not None and "%setup" in p:
            p.setup.options.n = o["value"]


def w_macro_set(s, o):
    with s.macro_definitions() as m:
        if o["name"] in m:
            getattr(m, o["name"]).body = o["body"]


def w_macro_add(s, o):
    from specfile.macro_definitions import CommentOutStyle, MacroDefinition

    with s.macro_definitions() as m:
        m.insert(
            o["at"] % (len(m) + 1),
            MacroDefinition(
                o["name"], o["body"], True, False, CommentOutStyle.DNL, ("", " ", " ", "")
            ),
        )


def w_macro_del(s, o):
    with s.macro_definitions() as m:
        if o["name"] in m:
            del m[m.find(o["name"])]


def w_macro_comment(s, o):
    with s.macro_definitions() as m:
        if o["name"] in m:
            x = getattr(m, o["name"])
            x.commented_out = not x.commented_out


def w_sec_line(s, o):
    with s.sections() as x:
        if o["name"] in x:
            sec = getattr(x, o["name"])
            sec.insert(o["at"] % (len(sec) + 1), o["text"])


def w_sec_add(s, o):
    from specfile.sections import Section

    with s.sections() as x:
        x.insert(o["at"] % len(x) + 1, Section(o["name"], data=[o["text"], ""]))


def w_sec_del(s, o):
    with s.sections() as x:
        if o["name"] in x:
            del x[x.find(o["name"])]


def w_update_tag(s, o):
    s.update_tag(o["name"], o["value"])


def w_update_version(s, o):
    kw = {}
    if o.get("pattern"):
        kw["prerelease_suffix_pattern"] = o["pattern"]
        kw["prerelease_suffix_macro"] = o.get("macro")
    s.update_version(o["value"], **kw)


def w_setvr(s, o):
    s.set_version_and_release(o["version"], o["release"])


def w_bump(s, o):
    s.bump_release()


def w_line(s, o):
    with s.lines() as lines:
        lines.insert(o["at"] % (len(lines) + 1), o["text"])


def w_toggle(s, o):
    """Adds a line, or takes it out again."""
    with s.lines() as lines:
        if o["text"] in lines:
            lines.remove(o["text"])
        else:
            lines.insert(1, o["text"])


def w_save(s, o):
    s.save()


def w_reload(s, o):
    s.reload()


def w_with(s, o):
    with s:
        with s.tags() as t:
            t.summary.value = o["value"]


def mark(x, view, text):
    """A small edit of any view."""
    if view == "lines":
        x.append("# " + text)
    elif view == "sections":
        x[0].append("# " + text)
    elif view == "tags":
        x[0].comments.append(text)
    elif view == "changelog":
        if x:
            x[0].content.append(text)
    elif len(x):
        if view == "macro_definitions":
            x[0].body += text
        else:
            x[0].location += text


def w_mark(s, o):
    with getattr(s, o["view"])() as x:
        mark(x, o["view"], o["text"])


OPS = {k: v for k, v in globals().items() if k[:2] in ("r_", "w_")}
# these may stop half-way (their statement says so), but have to converge
CONVERGING = {"w_update_tag", "w_update_version"}
# the caller's own blocks of several steps: what was done before the failing step stays
COMPOUND = {"w_src_eval", "w_settag2"}


def apply(spec, op):
    return OPS[op["do"]](spec, op)


# -- seeded choice -------------------------------------------------------------------

EXPRS = [
    "%{name}-%{version}-%{release}",
    "%{?foo}",
    "%{who}|%{num}",
    "%{?dist}",
    "%{SOURCE0}",
    "%{patches}",
    "%{sources}",
    "%{undefined_thing}",
    "%(echo sh)",
    "%{expr:%{num}+1}",
    "%{_sourcedir}",
]
BAD_EXPRS = ["%{error:oops}", "%{lua:error('x')}", "%{expr:1/0}", "%{unterminated"]


def gen_read(rng):
    do = rng.choice(
        ["r_expand"] * 4
        + ["r_tags", "r_tagsx", "r_sources", "r_patches", "r_sections", "r_psections"]
        + ["r_changelog", "r_prep", "r_macros", "r_props", "r_header", "r_parsed"]
        + ["r_prepscript", "r_active", "r_flags", "r_eq"]
    )
    op = {"do": do}
    if do == "r_expand":
        op["expr"] = rng.choice(EXPRS) if rng.random() < 0.85 else rng.choice(BAD_EXPRS)
        if rng.random() < 0.3:
            op["extra"] = rng.choice([[["dist", ".zz"]], [["foo", "X"]], [["dist", None]]])
    elif do == "r_active":
        op["names"] = ["who", "foo", "num", "flag", "name", "version", "_sourcedir"]
    return op


LOCATIONS = [
    "new1.tar.gz",
    "new2.txt",
    "https://example.org/new3.zip",
    "%{name}-data.tar.xz",
    "new4.conf",
]
PATCHES = ["fix1.patch", "fix2.patch", "https://example.org/fix3.patch", "%{name}-fix4.patch"]
VERSIONS = ["2.0", "3.1", "4.2.1", "10", "5~rc1"]


def gen_write(rng):
    do = rng.choice(
        ["w_prop", "w_prop", "w_settag", "w_settag2", "w_addtag", "w_deltag", "w_comment"]
        + ["w_add_patch", "w_add_patch", "w_src_append", "w_src_insert", "w_src_numbered"]
        + ["w_src_set", "w_src_remove", "w_src_remove_numbered", "w_src_del", "w_src_eval"]
        + ["w_clog_add", "w_clog_add", "w_clog_edit", "w_clog_del", "w_prep_add"]
        + ["w_prep_remove", "w_prep_opt", "w_macro_set", "w_macro_add", "w_macro_del"]
        + ["w_macro_comment", "w_sec_line", "w_sec_add", "w_update_tag", "w_update_version"]
        + ["w_update_version", "w_setvr", "w_bump", "w_line", "w_with"]
    )
    op = {"do": do}
    if do == "w_prop":
        op["name"] = rng.choice(["version", "release", "epoch", "summary", "url", "raw_release"])
        op["value"] = {
            "version": rng.choice(["2.0", "3.%{num}"]),
            "release": rng.choice(["5", "0.%{num}"]),
            "raw_release": rng.choice(["5%{?dist}", "6"]),
            "epoch": str(rng.randrange(4)),
            "summary": "sum " + str(rng.randrange(9)),
            "url": "https://example.com/%{name}",
        }[op["name"]]
    elif do == "w_settag":
        op["name"] = rng.choice(["version", "license", "release"])
        op["value"] = rng.choice(["3", "4.%{num}", "5%{?dist}"])
    elif do in ("w_settag2", "w_with"):
        op["value"] = "value %{num} " + str(rng.randrange(9))
    elif do == "w_addtag":
        op.update(name=rng.choice(["Requires", "BuildRequires", "Provides"]))
        op.update(value=f"x{rng.randrange(9)}", at=rng.randrange(20))
    elif do == "w_deltag":
        op["name"] = rng.choice(["URL", "Epoch", "Requires", "BuildRequires", "Source0", "Patch0"])
    elif do == "w_comment":
        op.update(at=rng.randrange(20), text=f"note {rng.randrange(99)}")
    elif do == "w_add_patch":
        op["location"] = rng.choice(PATCHES)
        if rng.random() < 0.3:
            op["number"] = rng.randrange(12)
        if rng.random() < 0.4:
            op["comment"] = "why\nthat"
    elif do.startswith("w_src"):
        op["patches"] = rng.random() < 0.4
        op["location"] = rng.choice(PATCHES if op["patches"] else LOCATIONS)
        op["at"] = rng.randrange(5)
        op["number"] = rng.randrange(12)
    elif do == "w_clog_add":
        op.update(text=rng.choice(["- new entry", ["- one", "- two"]]))
        op["author"] = rng.choice(["Jane Doe", "J <j@x.org>"])
        op["email"] = rng.choice([None, "jane@doe.org"])
        op["date"] = [2024, rng.randrange(6, 12), rng.randrange(1, 28)]
        op["evr"] = rng.choice([None, None, "1:2-3", "%{version}-9"])
    elif do in ("w_clog_edit", "w_clog_del"):
        op.update(at=rng.randrange(4), text="- edited")
    elif do.startswith("w_prep"):
        op.update(number=rng.randrange(4), p=rng.randrange(3), value="%{name}-x")
    elif do.startswith("w_macro"):
        op["name"] = rng.choice(["foo", "num", "flag", "who"])
        if do == "w_macro_add":
            op["name"] = f"added{rng.randrange(5)}"
        op["body"] = rng.choice(["1", "2", "v1", "%{who}9"])
        if op["name"] == "who":
            op["body"] = "ww"
        op["at"] = rng.randrange(12)
    elif do == "w_sec_line":
        op["name"] = rng.choice(["build", "install", "description", "prep", "package"])
        op.update(at=rng.randrange(9), text=rng.choice(["# c", "echo x", ""]))
        if op["name"] == "package":
            op["text"] = "# c"
    elif do == "w_sec_add":
        op.update(name=rng.choice(["check", "clean"]), at=rng.randrange(1, 9), text="echo added")
    elif do == "w_update_tag":
        op["name"] = rng.choice(["Version", "Release", "Summary"])
        op["value"] = rng.choice(["7", "8.3", "8.4", "9.2"])
    elif do == "w_update_version":
        op["value"] = rng.choice(VERSIONS + ["6.0rc2", "6.0"])
        if rng.random() < 0.4:
            op["pattern"] = r"([.\-_~^]?)(rc\d+)"
            op["macro"] = "prerel"
    elif do == "w_setvr":
        op.update(version=rng.choice(VERSIONS), release=str(rng.randrange(1, 9)))
    elif do == "w_line":
        op.update(at=rng.randrange(8), text="# line")
    return op
