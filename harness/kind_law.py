"""Kind "law": the feedback law itself, at one state."""
from kind_rates import *


def go(it):
    c = it["case"]
    r = rng(f"law/{it['id']}")
    mu, et = gm(r, c["mu"]), c["et"]
    k = kep(r, c)
    k[1] = max(k[1], 2e-4)
    x = k if et == "keplerian" else as_mee(k, True)
    oeT = [x[0]*r.uniform(0.7, 1.5)] + [q + r.uniform(-.3, .3) for q in x[1:5]]
    if c["target"] == "same-a":
        oeT[0] = x[0]
    elif c["target"] == "near":
        oeT = [x[0]*(1 + 1e-4*r.uniform(-1, 1))] + [q + 1e-4*r.uniform(-1, 1) for q in x[1:5]]
    elif c["target"] == "turns" and et == "keplerian":
        oeT[3] += r.choice([-2, 2, 4])*math.pi; oeT[4] += r.choice([-2, 2, -4])*math.pi
    elif c["target"] == "opposite" and et == "keplerian":
        oeT[3] += r.uniform(2.0, 3.1); oeT[4] -= r.uniform(2.0, 3.1)
    if et == "keplerian":
        oeT[1] = min(max(oeT[1], 1e-3), 0.95); oeT[2] = min(max(oeT[2], 1e-2), 3.1)
    w = {"ones": [1.0]*5, "random": [r.uniform(.1, 10) for _ in range(5)], "zeros": [r.choice([0.0, 1.0, 3.0]) for _ in range(5)]}.get(c["woe"])
    if w is None:
        w = [0.0]*5; w[r.randrange(5)] = r.uniform(.5, 2)
    if sum(w) == 0:
        w[0] = 1.0
    rp = x[0]*(1 - k[1])
    par = dict(rpmin=rp*r.choice([0.3, 0.9, 1.5]), k=r.choice([1.0, r.uniform(.3, 20)]), m=r.uniform(1, 5), n=r.choice([4.0, 2.0, 3.0, r.uniform(1.5, 6)]),
               r=r.choice([2.0, r.uniform(1, 4)]), b=r.choice([0.01, r.uniform(0, 1)]), wp=r.choice([1.0, 0.0, r.uniform(0, 8)]))
    f = mu/x[0]**2*10**r.uniform(-5, -1)
    rec = dict(id=it["id"], kind="law", et=et, mu=fs(mu), x=fv(x), oeT=fv(oeT), woe=fv(w), f=fs(f), par={a: fs(b) for a, b in par.items()},
               errors=[], q="nan", u=[], dq=[], dqdt="nan", alpha="nan", beta="nan", dqdt2="nan", q2="nan", dq2=[], case=c)
    a = (mu, f, np.array(x), np.array(oeT), par["rpmin"], par["m"], par["n"], par["r"], par["b"], par["k"], par["wp"], np.array(w))
    fns = call(rec, "symbolic", law, et)
    if fns is None:
        return rec
    y = call(rec, "control", fns[0], *a)
    if y is not None:
        rec["u"], rec["q"], rec["dq"] = fv(y[0]), fs(y[2]), fv(y[3])
    y = call(rec, "gradient", fns[2], *a)
    if y is not None:
        rec["dq2"] = fv(y)
    y = call(rec, "rate", fns[3], *a)
    if y is not None:
        rec["dqdt2"] = fs(y)
    y = call(rec, "angles", pick("lyapunov_control_angles"), fns[0], *a)
    if y is not None:
        rec["alpha"], rec["beta"], rec["q2"], rec["dqdt"] = fs(y[0]), fs(y[1]), fs(y[4]), fs(y[5])
    return rec
