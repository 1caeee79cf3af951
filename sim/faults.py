"""Seeded choice of faults. Only generators use this; runs never draw."""

IO_KINDS = ["ENOSPC", "EDQUOT", "EIO", "EACCES", "EROFS", "EMFILE", "SHORT", "TORN"]
INT_KINDS = ["KINT", "MEM"]


def small(rng, top=12):
    """Small numbers often, larger ones sometimes."""
    if rng.random() < 0.55:
        return rng.randrange(0, 3)
    return rng.randrange(0, top)


def pick_faults(rng, kinds, cats, rate, top=12, most=2):
    """A list of faults for one operation, often empty."""
    if rng.random() >= rate:
        return []
    out = []
    for _ in range(1 if rng.random() < 0.75 else most):
        kind = rng.choice(kinds)
        f = {"kind": kind, "k": small(rng, top)}
        if kind in INT_KINDS:
            r = rng.random()
            if r < 0.3:
                f.update(call="rpm", path="spec", k=rng.choice([0, 0, 0, 1, 1, 2]))
            elif r < 0.5:
                f["call"] = "rpm"
                f["k"] = rng.choice([0, 0, 1, 2, 3, small(rng, 40), small(rng, 40)])
            elif rng.random() < 0.6:
                f["cat"] = rng.choice(cats)
            if kind == "KINT" and f.get("call") == "rpm" and rng.random() < 0.4:
                f["after"] = True
        elif rng.random() < 0.75:
            f["cat"] = rng.choice(cats)
        if kind in ("EACCES", "EROFS", "ENOSPC", "EIO", "EMFILE") and rng.random() < 0.15:
            f["sticky"] = True
        out.append(f)
    return out
