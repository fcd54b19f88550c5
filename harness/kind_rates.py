"""Kind "rates": element rates under acceleration."""
from regimes import *

_laws = {}


def law(et):
    if et not in _laws:
        _laws[et] = pick("symbolic_qlaw_keplerian" if et == "keplerian" else "symbolic_qlaw_mee_with_a")()
    return _laws[et]


def go(it):
    c = it["case"]
    r = rng(f"rates/{it['id']}")
    mu, et = gm(r, c["mu"]), c["et"]
    k = kep(r, c)
    if et == "keplerian":
        x = k
        if k[1] < 1e-4:
            k[1] = 1e-4
    else:
        x = as_mee(k, et == "mee_with_a")
    g = mu/k[0]**2*r.uniform(0.05, 0.8)
    vec = lambda: [g*r.uniform(-1, 1) for _ in range(3)]
    u = {"none": [0.0]*3, "R": [g, 0, 0], "T": [0, -g, 0], "N": [0, 0, g]}.get(c["u"]) or vec()
    p = vec() if c["p"] == "any" else [0.0]*3
    rec = dict(id=it["id"], kind="rates", et=et, mu=fs(mu), x=fv(x), u=fv(u), p=fv(p), psi=[], psi2=[], rate=[], errors=[], case=c)
    psi = [[0.0]*5]*3
    par = (0.1, 3.0, 4.0, 2.0, 0.01, 1.0, 1.0)
    if et != "mee":
        oeT = np.array(x[:5])*1.1 + 0.01
        f = call(rec, "symbolic", law, et)
        if f is not None:
            y = call(rec, "control", f[0], mu, 1e-3*g, np.array(x), oeT, *par, np.ones(5))
            if y is not None:
                psi = [[float(q) for q in col] for col in y[1]]
                rec["psi"] = [fv(col) for col in y[1]]
            y = call(rec, "psi", f[1], mu, 1e-3*g, np.array(x), oeT, *par, np.ones(5))
            if y is not None:
                rec["psi2"] = [fv(col) for col in y]
            y = call(rec, "angles", pick("lyapunov_control_angles"), f[0], mu, 1e-3*g, np.array(x), oeT, *par, np.ones(5))
            if y is not None:
                rec["psi3"] = [fv(col) for col in y[3]]
    rec.setdefault("psi3", [])
    fn = pick({"keplerian": "eom_kep_gauss", "mee_with_a": "eom_mee_with_a_gauss", "mee": "eom_mee_gauss"}[et])
    y = call(rec, "eom", fn, r.choice([0.0, 1.7]), np.array(x, dtype=float),
             (mu, np.array(u, dtype=float), psi[0], psi[1], psi[2], np.array(p, dtype=float)))
    if y is not None:
        rec["rate"] = fv(y)
    return rec
