"""Kind "bounds": the safety bounds on elements."""
from regimes import *


def go(it):
    c = it["case"]
    r = rng(f"bounds/{it['id']}")
    n = c["len"]
    oe = [r.uniform(-2, 2) for _ in range(6)]
    lo = [x - r.uniform(0.1, 2) for x in oe][:n]
    hi = [x + r.uniform(0.1, 2) for x in oe][:n]
    j = c["el"] - 1
    which = {"inside": [], "below": [j], "above": [j], "mixed": range(6), "edge": [j], "degenerate": range(6)}[c["kind"]]
    for q in which:
        k = c["kind"] if c["kind"] != "mixed" else r.choice(["inside", "below", "above"])
        if k == "below":
            oe[q] -= r.choice([2.5, 4, 1e6])
        elif k == "above":
            oe[q] += r.choice([2.5, 4, 1e6])
        elif k == "edge" and q < n:
            oe[q] = r.choice([lo[q], hi[q]])
        elif k == "degenerate" and q < n:
            lo[q] = hi[q]
    if c["inf"] == "low":
        lo = [-math.inf if r.random() < .6 else x for x in lo]
    if c["inf"] == "high":
        hi = [math.inf if r.random() < .6 else x for x in hi]
    rec = dict(id=it["id"], kind="bounds", oe=fv(oe), lo=fv(lo), hi=fv(hi), out=[], errors=[], case=c)
    y = call(rec, "elements_safety", pick("elements_safety"), np.array(oe), np.array(lo), np.array(hi))
    if y is not None:
        rec["out"] = fv(y)
    return rec
