"""Kind "conv": a chain of element conversions, the element extractors, and the sampled orbit."""
from regimes import *

EDGES = [("kep", "sv", "kep2sv", True), ("sv", "kep", "sv2kep", True), ("kep", "mee", "kep2mee", False), ("mee", "kep", "mee2kep", False),
         ("mee", "meea", "mee2mee_with_a", False), ("kep", "meea", "kep2mee_with_a", False), ("meea", "kep", "mee_with_a2kep", False),
         ("meea", "sv", "mee_with_a2sv", True), ("meea", "mee", "mee_with_a2mee", False)]


def go(it):
    c = it["case"]
    r = rng(f"conv/{it['id']}")
    mu = gm(r, c["mu"])
    k = kep(r, c)
    rec = dict(id=it["id"], kind="conv", mu=fs(mu), errors=[], hops=[], case=c)
    t, x = c["from"], {"kep": k, "sv": as_sv(k, mu), "mee": as_mee(k, False), "meea": as_mee(k, True)}[c["from"]]
    sv0 = None
    for h in range(c["hops"]):
        es = [e for e in EDGES if e[0] == t and pick(e[2]) is not None]
        if not es:
            break
        e = r.choice(es)
        a = np.array(x, dtype=float)
        y = call(rec, e[2], pick(e[2]), a, mu) if e[3] else call(rec, e[2], pick(e[2]), a)
        if y is None:
            break
        rec["hops"].append({"fn": e[2], "src": e[0], "dst": e[1], "in": fv(x), "out": fv(y), "kept": fv(a)})
        t, x = e[1], [float(q) for q in np.asarray(y).ravel()]
        if not all(map(math.isfinite, x)):
            break
    s = np.array(as_sv(k, mu))
    rec["sv"] = fv(s)
    rec["get"] = {}
    for name, two in (("get_semiMajorAxis", 1), ("get_eccentricity", 1), ("get_inclination", 0), ("get_raan", 0), ("get_omega", 1), ("get_trueanom", 1),
                      ("get_period", 1)):
        y = call(rec, name, pick(name), *((s, mu) if two else (s,)))
        if y is not None:
            rec["get"][name] = fv(y)
    m = np.array(as_mee(k, True))
    rec["kep"], rec["mee"] = fv(k), fv(m)
    y = call(rec, "ta2ea", pick("ta2ea"), k[5], k[1])
    if y is not None:
        rec["get"]["ta2ea"] = fv(y)
    y = call(rec, "mee2ea", pick("mee2ea"), m)
    if y is not None:
        rec["get"]["mee2ea"] = fv(y)
    n = r.choice([2, 5, 9, 17])
    y = call(rec, "get_orbit_coordinates", pick("get_orbit_coordinates"), np.array(k), mu, n)
    rec["steps"] = n
    rec["orbit"] = [] if y is None else [fv(y[:, j]) for j in range(y.shape[1])]
    return rec
