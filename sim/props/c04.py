"""C04: a failed operation is all-or-nothing and never poisons the instance."""

import json

from sim import ops as catalogue
from sim.faults import pick_faults
from sim.kernel import K
from sim.specgen import gen_spec
from sim.world import Violation

BREAKS = ["%if 1", "Bogus line", "%{error:broken}", "Name: second", "%include /nope"]

ANY_TEXT = True


def gen(rng, tier):
    n = rng.choice([1, 2, 2])
    specs = [gen_spec(rng, "ab"[i]) for i in range(n)]
    for i in range(n):
        if rng.random() < 0.3:
            specs[i] = "%global prerel rc1\n" + specs[i].replace(
                "Version:        ", "Version:        %{?prerel:0.}", 1
            )
    kinds = rng.sample(
        ["KINT", "KINT", "MEM", "ENOSPC", "EDQUOT", "EIO", "EMFILE", "EACCES", "TORN", "SHORT"], 4
    )
    autosave = [rng.random() < 0.3 for _ in range(n)]
    rate = rng.choice([0, 0.4, 0.6, 0.8])
    broken = rng.random() < 0.35
    ops = [{"op": "new", "c": c} for c in range(n)]
    for _ in range(rng.randrange(4, 11)):
        c = rng.randrange(n)
        r = rng.random()
        if r < 0.05:
            op = {"op": "new", "c": c}
        elif r < 0.12 and broken:
            op = {"op": "do", "c": c, "do": {"do": "w_toggle", "text": rng.choice(BREAKS)}}
        elif r < 0.2:
            op = {"op": "do", "c": c, "do": {"do": rng.choice(["w_save", "w_reload"])}}
        elif r < 0.25:
            op = {"op": "macros", "c": c, "macro": rng.choice([["foo", "M"], ["dist", ".q"]])}
        elif r < 0.6:
            op = {"op": "do", "c": c, "do": catalogue.gen_write(rng)}
        else:
            op = {"op": "do", "c": c, "do": catalogue.gen_read(rng)}
        if op["op"] != "macros" and rate:
            cats = ["tmp", "src", "spec"]
            op["faults"] = pick_faults(rng, kinds, cats, rate, 12)
            if (autosave[c] or op.get("do", {}).get("do") == "w_save") and rng.random() < 0.5:
                op["faults"] = [
                    {
                        "kind": rng.choice(["ENOSPC", "EIO", "TORN", "EACCES", "KINT"]),
                        "cat": "spec",
                        "k": rng.randrange(0, 3),
                    }
                ]
        ops.append(op)
        if op.get("faults") and rng.random() < 0.25:
            # trouble continues before it is over
            again = dict(op)
            again["faults"] = pick_faults(rng, kinds, ["tmp", "src", "spec"], 1, 12)
            ops.append(again)
        if op.get("faults") and rng.random() < 0.8:
            again = {k: v for k, v in op.items() if k != "faults"}
            if rng.random() < 0.25:
                again = {"op": "do", "c": c, "do": catalogue.gen_read(rng)}
            ops.append(again)
    return {"config": {"specs": specs, "autosave": autosave}, "ops": ops}


class Client:
    def __init__(self, spec):
        self.spec = spec
        self.text = str(spec)
        # (text before, operation) of an interrupted operation that may stop half-way
        self.pending = None


def cut(x):
    s = json.dumps(x, ensure_ascii=True)
    return s if len(s) < 1500 else s[:1500] + "..."


def first_diff(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else None
        y = lb[i] if i < len(lb) else None
        if x != y:
            return f"line {i + 1}: {x!r} instead of {y!r}"
    return "same"


def run(w, trace):
    from specfile import Specfile

    cfg = trace["config"]
    clients = {}
    for i, text in enumerate(cfg["specs"]):
        w.write(f"s{i}.spec", text)

    def classify(p):
        if isinstance(p, str):
            if p.startswith(w.path("tmp")):
                return "tmp"
            if p.startswith(w.path("src")):
                return "src"
            if p.endswith(".spec"):
                return "spec"
        return "other"

    K.classify_path = classify

    for op in trace["ops"]:
        c = op["c"]
        if c >= len(cfg["specs"]):
            continue
        others = [x for k, x in clients.items() if k != c]
        if op["op"] == "new":
            w.ops_done += 1
            before = w.read(f"s{c}.spec").decode("utf8", "surrogateescape")
            out = w.call(
                "new",
                lambda: Specfile(
                    w.path(f"s{c}.spec"), sourcedir=w.path("src"), autosave=cfg["autosave"][c]
                ),
                op.get("faults"),
            )
            if out.ok:
                clients[c] = Client(out.value)
            else:
                if not out.fired:
                    got = w.ref.twin(before, [{"do": "r_header"}], w.path("src"))[0]
                    if got["exc"] is None:
                        raise Violation("poisoned", f"cannot load a good spec: {out.desc()}")
                clients.pop(c, None)
            out = None
        elif c not in clients:
            continue
        elif op["op"] == "macros":
            cl = clients[c]
            m = tuple(op["macro"])
            if m in cl.spec.macros:
                cl.spec.macros.remove(m)
            else:
                cl.spec.macros.append(m)
            cl.pending = None
            continue
        else:
            step(w, clients[c], c, op)
        for other in others:
            if str(other.spec) != other.text:
                raise Violation(
                    "other-instance",
                    f"{op} changed another spec: {first_diff(str(other.spec), other.text)}",
                )


def step(w, cl, c, op):
    spec = cl.spec
    do = op["do"]
    w.ops_done += 1
    name = do["do"]
    before = cl.text
    disk = w.read(f"s{c}.spec").decode("utf8", "surrogateescape")

    def twin(text):
        return w.ref.twin(
            text,
            [do],
            w.path("src"),
            disk=disk,
            macros=[list(m) for m in spec.macros],
            autosave=spec.autosave,
        )[0]

    want = twin(before)
    out = w.call(name, lambda: catalogue.apply(spec, do), op.get("faults"))
    text = str(spec)
    cl.text = text
    on_disk = w.read(f"s{c}.spec").decode("utf8", "surrogateescape")
    after_failure, cl.pending = cl.pending, None

    def bad(kind, message):
        raise Violation(kind, f"{do} ({[f[:2] for f in out.fired]}): {message}")

    if out.fired:
        w.probe("op under fault: " + ("failed" if not out.ok else "went through"))
    if out.ok:
        if want["exc"] is not None:
            bad("should-fail", f"succeeded; a fresh instance raises {want['exc']}")
        if text != want["text"]:
            bad("text", f"wrong text afterwards, {first_diff(text, want['text'])}")
        value = json.loads(json.dumps(out.value).replace(json.dumps(str(spec.path))[1:-1], "@SPEC@"))
        if value != want["value"]:
            bad("value", f"returned {cut(value)} instead of {cut(want['value'])}")
        if on_disk != want["disk"]:
            bad("disk", f"wrong file afterwards, {first_diff(on_disk, want['disk'])}")
        if after_failure and after_failure[1] == do and not out.fired:
            # repeated after it stopped half-way: as if it had never been interrupted
            w.probe("converging retry")
            full = twin(after_failure[0])
            if full["exc"] is None and full["text"] != text:
                bad("no-convergence", f"repeating gives {first_diff(text, full['text'])}")
        return
    if not out.fired:
        if want["exc"] is None:
            bad("poisoned", f"failed without a fault: {out.desc()}; a fresh instance succeeds")
        if type(out.exc).__name__ != want["exc"]:
            bad("poisoned", f"raised {out.desc()}; a fresh instance raises {want['exc']}")
        w.probe("unparseable or refused")
        steps = name in catalogue.COMPOUND and text == want["text"]
        if name not in catalogue.CONVERGING and text != before and not steps:
            bad("half-done", f"refused, but the text changed, {first_diff(text, before)}")
        return
    # failed because of a fault
    if text == before:
        w.probe("rolled back")
        if name in catalogue.CONVERGING and not spec.autosave:
            cl.pending = (before, do)
    elif text == want["text"] and (want["exc"] is None or name in catalogue.COMPOUND):
        w.probe("completed in memory")
    elif name in catalogue.CONVERGING:
        w.probe("stopped half-way")
        if after_failure and after_failure[1] == do:
            cl.pending = after_failure
        else:
            cl.pending = (before, do)
    else:
        bad("half-done", f"failed with {out.desc()} leaving neither the old nor the new text: "
            f"against old {first_diff(text, before)}; against new {first_diff(text, want['text'])}")
