"""C09: a new changelog entry carries one consistent, correctly formatted time."""

import calendar
import os
import re
import time

from sim import env
from sim.faults import pick_faults
from sim.kernel import K
from sim.world import Violation

WEEKDAYS = "Mon Tue Wed Thu Fri Sat Sun".split()
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
# POSIX descriptions, so that nothing depends on the installed database
ZONES = [
    ("UTC0", 0),
    ("CET-1CEST,M3.5.0,M10.5.0/3", 3600),
    ("EST5EDT,M3.2.0,M11.1.0", -5 * 3600),
    ("<+0545>-5:45", 20700),
    ("NZST-12NZDT,M9.5.0,M4.1.0/3", 12 * 3600),
    ("<-12>12", -12 * 3600),
    ("LINT-14", 14 * 3600),
    ("NST3:30NDT,M3.2.0,M11.1.0", -12600),
]
DEFAULT_EVR = "%{?epoch:%{epoch}:}%{version}-%{release}"
HEADER = re.compile(r"^\* (\w{3}) (\w{3}) ( *)(0?)(\d{1,2})(?= )")
EXTENDED = re.compile(r"^\* \w{3} \w{3} +\d{1,2} \d\d:\d\d:\d\d \S+ \d{4}(?= )")
SECTION = re.compile(r"^%(changelog|description|files|prep|build|install|check)\b", re.I)
AUTO = re.compile(r"^[^#]*%(autochangelog\b|\{\??autochangelog\})")


# -- generation ---------------------------------------------------------------------------------


def instant(rng, zone, not_before=None):
    """Seconds since the epoch; often where calendars disagree."""
    year = rng.randrange(1997, 2037)
    month, day = rng.randrange(1, 13), rng.randrange(1, 29)
    t = rng.random()
    if t < 0.2:
        month, day = 12, 31
    elif t < 0.3:
        month, day = 1, 1
    elif t < 0.4:
        year, month, day = rng.choice([2000, 2024, 2032]), 2, 29
    elif t < 0.5:
        month, day = rng.choice([(3, 31), (10, 27), (11, 3), (3, 10), (4, 6)])
    elif t < 0.7:
        day = rng.randrange(1, 11)
    base = calendar.timegm((year, month, day, 0, 0, 0))
    if not_before is not None and base < not_before:
        base = not_before + rng.randrange(0, 40) * 86400
        base -= base % 86400
    u = rng.random()
    if u < 0.25:
        base += rng.choice([-2, -1, 0, 1])
    elif u < 0.5:
        base += rng.choice([-2, -1, 0, 1]) - zone[1]
    elif u < 0.65:
        base += rng.choice([1, 2, 3, 7, 8, 9]) * 3600 + rng.choice([-1, 0, 1])
    else:
        base += rng.randrange(86400)
    return base + rng.choice([0, 0.25, 0.999999])


def old_header(rng, t, style, pad):
    g = time.gmtime(t)
    day = {"0": f"{g.tm_mday:02}", " ": f"{g.tm_mday:2}", "": f"{g.tm_mday}", " 0": f" {g.tm_mday:02}"}[pad]
    stamp = f"{WEEKDAYS[g.tm_wday]} {MONTHS[g.tm_mon - 1]} {day}"
    if style == "ext":
        stamp += f" {g.tm_hour:02}:{g.tm_min:02}:{g.tm_sec:02} {rng.choice(['UTC', 'CET', 'EST', '+0545'])}"
    who = rng.choice(["Old Timer <o@example.org>", "A B C", "Jürgen <j@x>", "x <y@z> - 1.0-1", "x <y@z> 1:1.0-1"])
    return f"* {stamp} {g.tm_year} {who}"


def old_entries(rng, some=False):
    n = rng.choice([0, 1, 1, 2, 3, 5]) or (1 if some else 0)
    t = calendar.timegm((1995, rng.randrange(1, 13), rng.randrange(1, 28), 12, 0, 0))
    style = rng.choice(["date", "ext", "mixed"])
    pad = rng.choice(["0", "0", "0", " ", "", "", " 0", "mixed", "mixed"])
    lines = []
    for i in range(n):
        st = style if style != "mixed" else rng.choice(["date", "ext"])
        p = pad if pad != "mixed" else rng.choice(["0", ""])
        lines.append(old_header(rng, t, st, p))
        for j in range(rng.choice([0, 1, 1, 2]) or (1 if i == 0 else 0)):
            lines.append(rng.choice(["- did things", "- fix rhbz#1", "  more", "- 100%% done", "-- Tue Mar 05 1996"]))
        if lines[-1].startswith("*"):
            lines.append("- x")
        lines += [""] * rng.choice([1, 1, 1, 0, 2])
        t -= rng.randrange(1, 400) * 86400
    return lines


def document(rng, ident):
    release = rng.choice(["1", "3%{?dist}", "%{rel}%{?dist}", "0.1.rc1%{?dist}", "2.%{dist}", "%{drel}"])
    lines = ["%global rel 7", rng.choice(["%global", "%define"]) + " drel 4%{?dist}", "Name: doc" + ident, f"Version: {rng.choice(['1.2', '%{rel}.0', '3~rc1'])}"]
    lines.append(f"Release: {release}")
    if rng.random() < 0.3:
        lines.append(f"Epoch: {rng.choice(['1', '%{rel}'])}")
    lines += ["Summary: s", "License: MIT", "", "%description", "text", "* Mon Jan 01 2001 not an entry", ""]
    head = rng.choice(["%changelog", "%changelog", "%changelog", "%changelog", "%Changelog", "%changelog ", "%CHANGELOG\t"])
    kind = rng.choice(["one"] * 5 + ["two"] * 4 + ["two-auto", "none", "auto", "auto-brace", "comment"])
    if kind == "one":
        lines.append(head)
        if rng.random() < 0.15:
            lines.append(rng.choice(["# newest first", ""]) if rng.random() < 0.8 else " ")
        lines += old_entries(rng)
    elif kind == "comment":
        lines += [head, rng.choice(["# %%autochangelog is not used here", "# %autochangelog no", "  # %autochangelog", "\t# %{autochangelog}"])] + old_entries(rng, True)
    elif kind == "auto":
        lines += [head, "%autochangelog"]
    elif kind == "auto-brace":
        lines += [head, "%{?autochangelog}"] + old_entries(rng)
    elif kind in ("two", "two-auto"):
        first, second = old_entries(rng, True), old_entries(rng, True)
        if kind == "two-auto":
            if rng.random() < 0.5:
                first = ["%autochangelog"]
            else:
                second = ["%autochangelog"]
        cond = rng.choice(["%if 0", "%if 1", "%if 0%{?rhel}"])
        lines += [cond, head] + first + ["%else", "%changelog"] + second + ["%endif"]
    if kind != "none" and not kind.startswith("two") and rng.random() < 0.25:
        lines += ["", "%files"]
    if rng.random() < 0.1:
        lines += [""]
    text = "\n".join(lines)
    return text + ("\n" if rng.random() < 0.9 else "")


def moment(rng, zone, last):
    """Readings of the clock during one operation."""
    t = instant(rng, zone, last if rng.random() < 0.93 else None)
    plan = [t]
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        plan.append(plan[-1] + rng.choice([0.5, 1, 2, 60, 3600, 86400, 40 * 86400, -1, -3600, -86400, 400 * 86400]))
    return plan


def gen(rng, tier):
    zone = rng.choice(ZONES)
    n = rng.choice([1, 1, 1, 2])
    docs = [document(rng, chr(97 + i)) for i in range(n)]
    cfg = {
        "tz": zone[0],
        "foreign": rng.random() < 0.25,
        "packager": rng.choice(["Pack Ager <p@example.org>", "root", "Žofie Ä <z@x>"]),
        "docs": docs,
        "macros": rng.choice([[], [["dist", ".fc39"]], [["dist", None]]]),
    }
    ops = []
    last = [None] * n
    count = 0
    for _ in range(rng.randrange(2, 8 if tier == "quick" else 14)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.8:
            plan = moment(rng, zone, last[c])
            last[c] = max(plan) + 86400 * 2
            count += 1
            op = {"op": "add", "c": c, "clock": plan}
            u = f"{count}"
            op["entry"] = rng.choice(
                [f"- change {u}", [f"- change {u}"], [f"- one {u}", "- two"], f"- a {u}\n- b", [f"- 100%% {u}", "  x"]]
            )
            a = rng.random()
            if a < 0.5:
                op["author"] = rng.choice(["Some One", "Ann", "Žo <z@y>", "x - y"])
                if rng.random() < 0.6:
                    op["email"] = rng.choice(["a@example.org", "b@c", ""])
            op["evr"] = rng.choice([None] * 6 + ["1:2-3", "%{version}-%{release}", "%{rel}-1%{?dist}", "v100%%%%-1"])
            s = rng.random()
            if s < 0.2:
                t = int(instant(rng, zone, last[c]))
                last[c] = t + 86400 * 2
                kind = rng.choice(["date", "naive", "aware"])
                op["when"] = {"kind": kind, "t": t}
                if kind == "aware":
                    op["when"].update(rng.choice([{"off": 7200, "name": "CEST"}, {"off": -18000, "name": "EST"}]))
            op["faults"] = pick_faults(rng, ["KINT", "MEM", "EIO", "EMFILE", "ENOSPC"], ["tmp", "other"], 0.12)
        elif r < 0.88:
            op = {"op": "release", "c": c, "v": rng.choice(["9%{?dist}", "10", "0.2.%{rel}"])}
        elif r < 0.92:
            op = {"op": "save", "c": c}
        elif r < 0.96:
            op = {"op": "reload", "c": c}
        else:
            op = {"op": "zone", "c": c, "tz": rng.choice(ZONES)[0]}
        ops.append(op)
    return {"config": cfg, "ops": ops}


# -- the model ----------------------------------------------------------------------------------


def sections_of(lines):
    """[(first line of the body, line after its end)] of every changelog section."""
    starts = [i for i, x in enumerate(lines) if SECTION.match(x)]
    out = []
    for i, s in enumerate(starts):
        if SECTION.match(lines[s]).group(1).lower() == "changelog":
            out.append((s + 1, starts[i + 1] if i + 1 < len(starts) else len(lines)))
    return out


def is_auto(body):
    return any(AUTO.match(x) for x in body)


def headers_in(body):
    """Header lines; the model's documents have no starred content lines."""
    return [x for x in body if x.startswith("*")]


def paddings(headers):
    found = []
    for h in headers:
        m = HEADER.match(h)
        if m:
            found.append(m.group(3) + (m.group(4) if len(m.group(4) + m.group(5)) == 2 else ""))
    if not headers:
        return ["0"]
    top = max([len(x) for x in found] + [0])
    return sorted({x for x in found if len(x) == top} or {""})


def days(day, pad):
    """Acceptable ways of writing the day of month."""
    if pad.endswith("0"):
        return [f"{pad[:-1]}{day:02}"]
    if pad:
        # either the padding itself or what makes the days line up
        return [f"{pad}{day}"] + ([f"{day:>{len(pad) + 1}}"] if day > 9 else [])
    return [f"{day}"]


def stamp_of(t):
    """Broken-down local and UTC time of one reading."""
    return time.localtime(t), time.gmtime(t)


def headers_for(op, t, newest, pads, tail):
    """Acceptable header lines."""
    when = op.get("when")
    if when:
        off = when.get("off", 0)
        b = env.REAL_TIME["gmtime"](when["t"] + off)
        clock = None
        if when["kind"] != "date":
            clock = f"{b.tm_hour:02}:{b.tm_min:02}:{b.tm_sec:02} {when.get('name', 'UTC')}"
    elif newest is not None and EXTENDED.match(newest):
        b = env.REAL_TIME["localtime"](t)
        clock = f"{b.tm_hour:02}:{b.tm_min:02}:{b.tm_sec:02} {b.tm_zone}"
    else:
        b = env.REAL_TIME["gmtime"](t)
        clock = None
    out = []
    for pad in pads:
        for d in days(b.tm_mday, pad):
            h = f"* {WEEKDAYS[b.tm_wday]} {MONTHS[b.tm_mon - 1]} {d}"
            if clock:
                h += " " + clock
            out.append(f"{h} {b.tm_year} {tail}")
    return out, calendar.timegm((b.tm_year, b.tm_mon, b.tm_mday, 12, 0, 0))


def explain(text, op, t, tail, entry, done=None):
    """Whether `done` is `text` with the entry added at `t`; otherwise the first difference."""
    end = text.endswith("\n")
    lines = (text[:-1] if end else text).split("\n")
    got_end = done.endswith("\n")
    got = (done[:-1] if got_end else done).split("\n")
    pos = 0  # in got
    at = 0  # in lines
    for first, last in sections_of(lines):
        body = lines[first:last]
        if is_auto(body):
            continue
        heads = headers_in(body)
        where = first + next((i for i, x in enumerate(body) if x.startswith("*")), len(body))
        chunk = lines[at:where]
        if got[pos : pos + len(chunk)] != chunk:
            return f"lines before the new entry changed: {got[pos:pos + len(chunk)]} instead of {chunk}"
        pos += len(chunk)
        at = where
        good, _ = headers_for(op, t, heads[0] if heads else None, paddings(heads), tail)
        if pos >= len(got) or got[pos] not in good:
            return f"header is {got[pos] if pos < len(got) else None!r}, not {' or '.join(map(repr, good))}"
        pos += 1
        content = [y for x in entry for y in x.split("\n")] + ([""] if heads else [])
        if got[pos : pos + len(content)] != content:
            return f"the entry holds {got[pos:pos + len(content)]} instead of {content}"
        pos += len(content)
    if got[pos:] != lines[at:] or got_end != end:
        return f"lines after the new entry changed: {got[pos:][:8]} instead of {lines[at:][:8]}"
    return None


# -- the run ------------------------------------------------------------------------------------


def set_zone(tz):
    os.environ["TZ"] = tz
    time.tzset()


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]

    def classify(p):
        return "tmp" if isinstance(p, str) and p.startswith(w.path("tmp")) else "other"

    K.classify_path = classify
    set_zone(cfg["tz"])
    env.CLOCK.foreign = cfg["foreign"]
    os.environ["RPM_PACKAGER"] = cfg["packager"]
    clients = {}
    span = []
    for c, text in enumerate(cfg["docs"]):
        w.write(f"s{c}.spec", text)
        macros = [tuple(m) for m in cfg["macros"]]
        spec = w.call("new", lambda: Specfile(w.path(f"s{c}.spec"), sourcedir=w.path("src"), macros=macros)).value
        if spec is None:
            w.probe("document refused")
            continue
        clients[c] = {"spec": spec, "macros": cfg["macros"], "c": c, "span": span}
    try:
        session(w, trace, clients)
    finally:
        w.sim_seconds = max(span, default=0) - min(span, default=0)
        for a, b in zip(span, span[1:]):
            if b < a:
                w.probe("clock went back between additions")


def session(w, trace, clients):
    for op in trace["ops"]:
        cl = clients.get(op["c"])
        if cl is None:
            continue
        spec = cl["spec"]
        w.ops_done += 1
        if op["op"] == "save":
            w.must("save", spec.save)
        elif op["op"] == "reload":
            w.must("reload", spec.reload)
        elif op["op"] == "release":
            w.must("release", lambda: setattr(spec, "raw_release", op["v"]))
        elif op["op"] == "zone":
            set_zone(op["tz"])
            w.probe("zone changed")
        else:
            others = {o["c"]: str(o["spec"]) for o in clients.values() if o is not cl}
            add(w, cl, op)
            for c, text in others.items():
                if str(clients[c]["spec"]) != text:
                    raise Violation("other", f"spec {c} changed without being edited")


def when_of(op):
    when = op.get("when")
    if not when:
        return None
    import datetime as dt

    b = env.REAL_TIME["gmtime"](when["t"] + when.get("off", 0))
    if when["kind"] == "date":
        return env.REAL_DATE(*b[:3])
    tz = None
    if when["kind"] == "aware":
        tz = dt.timezone(dt.timedelta(seconds=when["off"]), when["name"])
    return env.REAL_DATETIME(*b[:6], tzinfo=tz)


def add(w, cl, op):
    from specfile.exceptions import RPMException

    spec = cl["spec"]
    text = str(spec)
    evr = op["evr"] if op["evr"] is not None else DEFAULT_EVR
    macros = [m for m in cl["macros"] if m[0] != "dist"] + [["dist", ""]]
    ref = w.ref.ask(text, w.path("src"), macros=macros, expand=[evr], want=["changelog"], key=0)
    entry = op["entry"]
    env.CLOCK.arm(op["clock"])
    out = w.call(
        "add",
        lambda: spec.add_changelog_entry(
            entry, author=op.get("author"), email=op.get("email"), timestamp=when_of(op), evr=op["evr"]
        ),
        op.get("faults"),
    )
    readings = list(env.CLOCK.taken)
    env.CLOCK.armed = False
    for t in readings:
        cl["span"].append(t)
    w.probe(f"clock readings: {min(len(readings), 3)}")
    now = str(spec)
    targets = live(text)
    if out.exc is not None:
        if not out.fired:
            if ref["ok"] or not isinstance(out.exc, RPMException):
                raise Violation("unexpected-exception", f"adding an entry failed: {out.desc()}")
            w.probe("document refused by RPM")
        if now != text:
            raise Violation("half", f"a failed addition left {diff(text, now)}")
        return
    if not targets:
        w.probe("nothing to add to")
        if now != text:
            raise Violation("not-a-target", f"no section takes entries, but {diff(text, now)}")
        return
    if not ref["ok"]:
        raise Violation("accepted", "an entry was added to a document RPM refuses")
    value = ref["expand"][0]
    author = op.get("author")
    if author is None:
        author = trace_packager()
    elif op.get("email") is not None:
        author += f" <{op['email']}>"
    tail = f"{author} - {value}"
    lines = [entry] if isinstance(entry, str) else entry
    if op.get("when"):
        candidates = [None]
    else:
        candidates = readings
        if not readings:
            raise Violation("clock", "an entry without a time was added, but the clock was never read")
    why = []
    for t in candidates:
        e = explain(text, op, t, tail, lines, now)
        if e is None:
            break
        why.append(f"as of {t}: {e}")
    else:
        raise Violation("entry", f"TZ={os.environ['TZ']}: " + "; ".join(why))
    w.probe("entries added" if len(targets) == 1 else "entries added to two sections")
    w.probe("formats: " + "+".join(sorted({"extended" if EXTENDED.match(x) else "date" for x in tops(now)})))
    # what RPM makes of it
    after = w.ref.ask(now, w.path("src"), macros=macros, want=["changelog", "stderr"], key=0)
    before = ref["changelog"]
    if any(is_auto(b) for b in bodies(now)):
        return
    newest = before["time"][0] if before["time"] else 0
    _, noon = headers_for(op, t, None, [""], tail)
    if noon <= newest + 2 * 86400:
        # RPM ignores or refuses entries that are not in order
        w.probe("entry out of order")
        return
    if not after["ok"]:
        raise Violation("refused", f"RPM refuses the new entry: {after['stderr'].strip()[:300]}")
    got = after["changelog"]
    if got["name"][1:] != before["name"] or got["text"][1:] != before["text"] or got["time"][1:] != before["time"]:
        raise Violation("rpm", f"RPM sees other entries: {got} after {before}")
    if not got["name"]:
        raise Violation("rpm", f"RPM sees no entry at all: {after['stderr'][:300]}")
    if "%" not in tail and got["name"][0] != tail:
        raise Violation("rpm", f"RPM takes {got['name'][0]!r} for the author instead of {tail!r}")
    w.probe("seen by RPM")


def trace_packager():
    return os.environ["RPM_PACKAGER"]


def bodies(text):
    lines = (text[:-1] if text.endswith("\n") else text).split("\n")
    return [lines[a:b] for a, b in sections_of(lines)]


def live(text):
    return [b for b in bodies(text) if not is_auto(b)]


def tops(text):
    return [h[0] for h in (headers_in(b) for b in live(text)) if h]


def diff(a, b):
    import difflib

    return "\n".join(list(difflib.unified_diff(a.split("\n"), b.split("\n"), lineterm="", n=1))[:20])
