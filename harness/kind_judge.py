"""Kind "judge": the convergence predicates, called directly and through solves whose state does not change."""
from regimes import *


def go(it):
    c = it["case"]
    r = rng(f"judge/{it['id']}")
    et, j0 = c["et"], c["el"] - 1
    kp = et == "keplerian"
    oeT = [r.uniform(0.8, 2.0), r.uniform(0.05, 0.5), r.uniform(0.2, 1.2), r.uniform(0.2, 6.0), r.uniform(0.2, 6.0)] if kp else \
          [r.uniform(0.8, 2.0)] + [r.uniform(-0.3, 0.3) for _ in range(4)]
    at = c["at"]
    for j in range(5):                          # targets near zero, far from it, and on the other side of it
        if at == "small" or at == "small-el" and j == j0:
            oeT[j] *= 10**r.uniform(-6, -2)
        elif at == "large":
            oeT[j] *= 10**r.uniform(0, 1.5) if j == 0 or not kp and j > 2 else 1
        elif at == "negative" and (j > 2 if kp else j > 0):
            oeT[j] = -oeT[j]
    relf = c["relf"]
    tol = [10**(r.uniform(-2, -0.3) if c["tols"] == "coarse" else r.uniform(-5, -2)) for _ in range(5)]
    w = c["woe"]
    woe = [1.0]*5 if w == "ones" else [r.uniform(.1, 5) for _ in range(5)]
    if w == "zero-el":
        woe[j0] = 0.0
    if w == "only-el":
        woe = [1.0 if j == j0 else 0.0 for j in range(5)]
    if w == "zero-others":
        woe = [x if j == j0 else r.choice([0.0, x]) for j, x in enumerate(woe)]
    if w == "zero":
        woe = [0.0]*5
    sg = lambda j: {"plus": 1, "minus": -1}.get(c["sign"]) or r.choice([1, -1])
    how = c["how"]
    d = []
    for j in range(5):
        q = r.uniform(0, 0.9)*tol[j]
        if how.startswith("one-out") and j == j0:
            q = tol[j]*r.choice([1.05, 1.5, relf*0.9, relf*1.2, relf*30])
        elif how == "edge" and j == j0:
            q = tol[j]*(1 - 1e-7)
        elif how == "edge-out" and j == j0:
            q = tol[j]*(1 + 1e-5)
        elif how == "random":
            q = tol[j]*r.choice([0.5, 0.5, 0.5, 0.5, 2, relf*2])
        elif how == "half-turn" and j == j0:
            q = math.pi - r.uniform(0, 0.01) if kp and j >= 3 else tol[j]*2
        d.append(sg(j)*q)
    if how == "zero-tol":
        tol[j0], d[j0] = 0.0, r.choice([0.0, 0.0, 1e-6])
    oe = [t + x for t, x in zip(oeT, d)]
    if how == "exact":
        # differences and tolerances that are exact in binary: inclusive bound
        oeT = [round(t*64)/64 for t in oeT]
        tol = [2.0**-r.randint(6, 12) for _ in range(5)]
        m = r.choice([1, 1, 1, 2, relf])
        oe = [t + sg(j)*tol[j]*((m if j == j0 else r.choice([0, 0.5, 1])) if not kp or j < 3 else 0.5) for j, t in enumerate(oeT)]
    # one element wrong in a way that a careless comparison forgives
    if how == "mirror":
        oe[j0] = -oeT[j0]
    elif how == "far":
        oe[j0] = oeT[j0] + sg(j0)*10**r.uniform(-1.5, 0.3)
    elif how == "swap":
        k = r.choice([k for k in range(5) if k != j0])
        oe[j0], oe[k] = oeT[k], oeT[j0]
    elif how == "turn-any" and not (kp and j0 >= 3):
        oe[j0] = oeT[j0] + sg(j0)*2*math.pi*r.choice([1, 1, 2])
    elif how == "relative":
        m = 10**r.uniform(0.5, 2)
        oeT[j0] *= m
        oe[j0] = oeT[j0] + sg(j0)*tol[j0]*r.uniform(1.1, 0.9*m)
    elif how == "quarter":
        oe[j0] = oeT[j0] + sg(j0)*math.pi/2*r.choice([1, 2, 3])
    if kp and c["turns"] and (how != "exact"):
        for j in (3, 4):
            if r.random() < .7:
                oe[j] += c["turns"]*2*math.pi
    oe.append(r.uniform(-3, 9) if c["anomaly"] == "far" else 0.4)
    rec = dict(id=it["id"], kind="judge", et=et, oe=fv(oe), oeT=fv(oeT), woe=fv(woe), tol=fv(tol), relf=fs(relf), direct="", relaxed="", code=99, conv=False,
               errors=[], case=c)
    fn = pick("check_convergence_keplerian" if kp else "check_convergence_mee")
    a = [np.array(q, dtype=float) for q in (oe, oeT, woe, tol)]
    y = call(rec, "check", fn, *a)
    rec["direct"] = "" if y is None else ("yes" if y else "no")
    y = call(rec, "check relaxed", fn, *a[:3], relf*a[3])
    rec["relaxed"] = "" if y is None else ("yes" if y else "no")
    # the battery is at its floor: the thruster is off and the five slow elements stay exactly as they are
    def solve():
        big = np.array([1e3, 0.999, 10.0, 1e3, 1e3, 1e3])
        p = pyqlaw.QLaw(elements_type=et, integrator=r.choice(["rk4", "rkf45"]), verbosity=0, tol_oe=np.array(tol), relaxed_tol_factor=relf,
                        exit_at_relaxed=1, oe_min=np.concatenate(([1e-3, 0.0, 0.0], -big[3:])), oe_max=big)
        p.set_problem(np.array(oe), np.array(oeT), 1.0, 1e-6, 1e-8, tf_max=0.25, t_step=0.1, woe=np.array(woe), battery_initial=0.2)
        p.solve()
        return p
    # the predicates are total; a solve is only asked of bounded orbits
    orbit = 0.05 < oe[0] < 900 and ((1e-3 < oe[1] < 0.98 and 1e-3 < oe[2] < 3.13) if kp else math.hypot(oe[1], oe[2]) < 0.98)
    p = call(rec, "solve", solve) if orbit else None
    if p is not None:
        rec["code"], rec["conv"] = int(p.exitcode), bool(p.converge)
        rec["steps"] = len(p.times) - 1
        rec["last"] = fv(p.states[-1])
    else:
        rec["steps"], rec["last"] = 0, fv(oe)
    return rec
