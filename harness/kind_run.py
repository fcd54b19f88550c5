"""Kind "run": solve a problem of CaseGen for real and record everything."""
from common import *



def orbit(r, kind, et, a0):
    e, i = {"low-e": (0.01, 0.4), "mid-e": (0.3, 0.8), "high-e": (0.72, 1.0), "retro": (0.25, 2.4), "flat": (0.2, 0.02)}.get(
        kind, (r.uniform(0.02, 0.7), r.uniform(0.05, 2.6)))
    e *= r.uniform(0.8, 1.15)
    if kind == "tiny-e":
        e = 10**r.uniform(-3.7, -2.3)
    elif kind == "low-peri":
        e = r.uniform(0.75, 0.9)
    elif kind == "extreme":
        e = r.uniform(0.93, 0.99) if et == "mee_with_a" else r.uniform(0.88, 0.949)
    elif kind == "circular" and et == "mee_with_a":
        e = 0.0
    ang = [r.uniform(-math.pi, 2*math.pi) for _ in range(3)]
    if kind == "multiturn":
        ang = [x + r.choice([-2, 2, 4])*math.pi for x in ang]
    k = [a0, e, i] + ang
    if et == "mee_with_a":
        a, e, i, O, w, t = k
        i = min(i, 2.4)
        th = math.tan(i/2)
        return [a, e*math.cos(O + w), e*math.sin(O + w), th*math.cos(O), th*math.sin(O), O + w + t]
    k[3] = abs(k[3]) + 0.01
    k[4] = abs(k[4]) + 0.01
    if kind == "aligned":
        k[3], k[4] = r.choice([0.0, k[3], math.pi]), r.choice([0.0, 0.0, math.pi, math.pi/2])
    return k


def near(r, oe, s):
    """a target at distance ~s from oe in each element"""
    return [oe[0]*(1 + s*r.uniform(-1, 1))] + [oe[j] + s*r.uniform(-1, 1) for j in range(1, 5)]


class Fun:
    """a deterministic perturbation of the user's own"""
    def __init__(self, size, a0=1.0):
        self.size, self.a0, self.calls = size, a0, []
    def __call__(self, t, oe):
        return np.array([self.size*math.sin(1 + 3*t + float(oe[5])), -self.size*math.cos(2*t)*float(oe[0])/self.a0, self.size*math.sin(t - float(oe[1]))])
    def get_perturbations_RTN(self, t, oe, elements_type):
        self.calls.append((fs(t), fv(oe), elements_type))
        return self(float(t), oe)


def collapsed(p, oe0, args, ctor):
    """anomaly-based steps of an orbit that has shrunk to nothing: many steps, each of them an advance"""
    try:
        t = [float(x) for x in p.times]
        s = 1 if args["t_step"] > 0 else -1
        return ctor["use_sundman"] and all(s*(y - x) > 0 for x, y in zip(t, t[1:])) and abs(t[-1]) < abs(args["tf_max"]) \
            and float(p.states[-1][0]) < 0.2*oe0[0]
    except Exception:
        return False


def problem(idx, run):
    r = rng(f"run/{idx}")
    g = run.get
    et, integ = g("et"), g("integ")
    mu = {"small": r.uniform(0.2, 0.6), "big": r.uniform(2, 9), "tiny": 10**r.uniform(-5, -2)}.get(g("mu"), 1.0)
    a0 = r.uniform(0.8, 1.6)
    earth = g("mu") == "earth" and (et == "mee_with_a" or g("bounds") == "beyond")      # km and s
    if g("bounds") == "beyond":
        a0 = r.choice([a0, r.uniform(0.01, 0.045), r.uniform(120, 400)])
    if earth:
        mu, a0 = 398600.4418, r.uniform(7e3, 4e4)
    n = math.sqrt(mu/a0**3)
    oe0 = orbit(r, g("orbit"), et, a0)
    sund = g("step").startswith("sundman")
    back = g("dir") == "back"
    dts = r.uniform(0.03, 0.3)
    if g("step").endswith("big"):               # more than a revolution at a time
        dts = r.uniform(1, 9)
    dt = dts if sund else dts/n
    steps = {"one": 1, "long": r.randint(60, 110), "very": r.randint(205, 320), "huge": r.randint(9000, 12000)}.get(g("len"), r.randint(14, 34))
    step_t = dts/n
    tf = steps*step_t
    nthr = dict(weak=1e-4, mid=3e-3, strong=3e-2)[g("thrust")]
    mass0 = r.uniform(0.5, 2000.0) if r.random() < 0.3 else r.uniform(0.5, 2.0)
    tmax = nthr*mu/a0**2*mass0
    mdot = mass0*r.uniform(1e-4, 1e-2)*n
    if g("len") == "huge":
        mdot *= 1e-3
    args = dict(mass0=mass0, tmax=tmax, mdot=mdot, tf_max=tf, t_step=-dt if back else dt)
    ctor = dict(mu=mu, use_sundman=sund, verbosity=dict(v1=1, v2=2).get(g("quiet"), 0), print_frequency=r.choice([1, 3, 200]))
    if back and r.random() < 0.5:
        args["tf_max"] = -tf
    tgt = g("target")
    oeT = near(r, oe0, 0.02 if tgt == "near" else 0.25)
    if et == "keplerian":
        oeT[1] = min(max(oeT[1], 0.005), 0.9); oeT[2] = min(max(oeT[2], 0.02), 3.0)
        if tgt.startswith("far"):
            oeT[3] = r.uniform(-3, 9); oeT[4] = r.uniform(-3, 9)
    if tgt == "same-a":
        oeT[0] = oe0[0]
    if tgt == "nan":                # not a target at all: no direction is ever defined
        oeT[r.randrange(5)] = math.nan
    if tgt == "six":
        oeT = oeT + [r.uniform(0, 6)]
    w = g("woe")
    if w == "ones":
        args["woe"] = [1.0]*5
    elif w == "random":
        args["woe"] = [r.uniform(0.1, 10) for _ in range(5)]
    elif w == "zero-some":
        args["woe"] = [r.choice([0.0, 1.0, 2.5]) for _ in range(5)]
        if sum(args["woe"]) == 0:
            args["woe"][r.randrange(5)] = 1.0
    elif w == "only-a":
        args["woe"] = [1.0, 0.0, 0.0, 0.0, 0.0]
    elif w == "only-one":
        args["woe"] = [0.0]*5
        args["woe"][r.randrange(5)] = r.uniform(0.1, 10)
    elif w == "zero":
        args["woe"] = [0.0]*5
    elif w == "only-last":
        args["woe"] = [0.0, 0.0, 0.0, 0.0, 1.0] if r.random() < .5 else [0.0, 0.0, 0.0, 1.0, 1.0]
    d = g("duty")
    if d == "long":
        args["duty_cycle"] = (tf*r.uniform(0.2, 0.5), tf*r.uniform(0.1, 0.3))
    elif d == "short":
        args["duty_cycle"] = (step_t*r.uniform(0.5, 3.3), step_t*r.uniform(0.2, 2.7))
    elif d == "onlyoff":
        args["duty_cycle"] = (0.0, step_t*r.uniform(0.2, 3))
    b = g("batt")
    if b not in ("none", "none2"):
        lo, hi = r.uniform(0.1, 0.3), r.uniform(0.7, 1.2)
        if r.random() < .25:                    # a battery that may be used up
            lo = 0.0
        per = (hi - lo)/(step_t*r.uniform(2.5, 6))
        args.update(battery_capacity=(lo, hi), battery_initial=r.uniform(lo + 0.1, hi),
                    battery_charge_discharge_rate=(per*r.uniform(0.4, 1.6), per), require_full_recharge=(b == "full"))
        if b == "drain":
            args["battery_charge_discharge_rate"] = (0.0, per)
        elif b == "start-empty":
            args["battery_initial"] = lo if r.random() < .5 else lo*0.5
            args["require_full_recharge"] = r.random() < .5
        elif b == "overfull":
            args["battery_initial"] = hi*1.3
        elif b == "enough":
            args["battery_charge_discharge_rate"] = (per, 0.0) if r.random() < .3 else (per, per/1e3)
        if back:
            # a battery in a backward run gains while thrusting; the statements on it are about forward runs
            args["battery_charge_discharge_rate"] = (0.0, 0.0)
            args["battery_initial"] = hi
    e = g("end")
    if e == "mass":
        args["mass_min"] = mass0 - mdot*step_t*r.uniform(2, 6)
        if back:
            args["mass_min"] = mass0*(1 + r.uniform(-1, 1)*1e-6) if r.random() < 0.5 else 0.1
    elif e == "dry" and not back:               # nearly all of the mass is propellant
        args["mdot"] = mass0*r.uniform(0.7, 0.99)/tf
        args["mass_min"] = max(0.01, mass0*r.uniform(0.01, 0.05))
    elif e in ("tol", "relaxed"):
        s = r.choice([0.01, 0.01, 0.1])
        oeT[:5] = near(r, oe0, s)
        s *= r.uniform(0.3, 1.1)
        ctor.update(tol_oe=[s*r.uniform(0.5, 2)/(10 if e == "relaxed" else 1) for _ in range(5)],
                    relaxed_tol_factor=r.choice([1, 10, 25.0, 100]), exit_at_relaxed=r.choice([1, 2, 3, 4]))
    elif e == "zero-time":
        args["tf_max"] = r.choice([0.0, step_t*0.3])
    if "tol_oe" not in ctor and r.random() < 0.4:
        ctor["tol_oe"] = [10**r.uniform(-6, -2) for _ in range(5)]
    if "tol_oe" in ctor and r.random() < .2:    # one element that hardly matters
        j = r.randrange(5)
        ctor["tol_oe"][j] = r.uniform(1, 9)*(a0 if j == 0 else 1)
    p = g("par")
    if p == "random":
        ctor.update(rpmin=r.uniform(0.05, 0.6), k_petro=r.uniform(0.5, 5), m_petro=r.uniform(1, 4), n_petro=r.choice([2.0, 4.0, 3.0]),
                    r_petro=r.uniform(1, 3), b_petro=r.uniform(0.001, 0.3), wp=r.uniform(0, 3))
    elif p == "odd":
        ctor.update(rpmin=r.uniform(0.3, 0.9), k_petro=r.choice([1.0, 10.0]), n_petro=r.choice([3.5, 2.0, 5]), wp=r.choice([0.0, 1.0, 5.0]),
                    b_petro=0.5)
    if earth:
        ctor["rpmin"] = ctor.get("rpmin", 0.5)*a0
    bd = g("bounds")
    if bd == "tight" and et == "keplerian":
        ctor["oe_min"] = [oe0[0]*r.uniform(0.9, 1.0), oe0[1]*r.uniform(0.6, 1.0), oe0[2]*r.uniform(0.8, 1.0),
                          oe0[3]*r.uniform(0.9, 1.02), oe0[4]*0.9, 1e-8]
        ctor["oe_max"] = [oe0[0]*r.uniform(1.0, 1.1), oe0[1]*r.uniform(1.0, 1.3), oe0[2]*r.uniform(0.99, 1.1),
                          oe0[3]*1.1 + 0.05, oe0[4]*r.uniform(1.0, 1.1) + 0.05, math.inf]
        if r.random() < .5:             # the start itself lies outside
            j = r.randrange(5)
            if r.random() < .5:
                ctor["oe_min"][j] = oe0[j]*r.uniform(1.001, 1.05)
            else:
                ctor["oe_max"][j] = oe0[j]*r.uniform(0.96, 0.999); ctor["oe_min"][j] = oe0[j]*0.9
        ctor["oe_max"] = [max(h, 1.01*l) for l, h in zip(ctor["oe_min"], ctor["oe_max"])]
    elif bd == "tight":
        ctor["oe_min"] = [oe0[0]*1.01, 0.5, 0.5, 0.5, 0.5, 0.0]        # equinoctial runs ignore them
        ctor["oe_max"] = [oe0[0]*1.02, 0.6, 0.6, 0.6, 0.6, 1.0]
    elif bd == "wide":
        ctor["oe_min"] = [1e-3, 1e-5, 1e-5, -50.0, -50.0, -1e3]; ctor["oe_max"] = [1e3, 0.99, 3.2, 50.0, 50.0, 1e3]
    elif bd == "beyond":
        # states outside the default bounds, inside the user's own
        ctor["oe_min"] = [1e-4, 1e-6, 1e-6, -50.0, -50.0, -1e3]; ctor["oe_max"] = [1e5, 0.995, 3.14159, 50.0, 50.0, 1e3]
        if et == "keplerian":
            oe0[3] *= r.choice([1, -1]); oe0[4] *= r.choice([1, -1])
            oe0[2] = r.choice([oe0[2], 10**r.uniform(-5, -4)])
            oe0[1] = r.choice([oe0[1], 0.955, 5e-5 if r.random() < .2 else oe0[1]])
    k = {"zero": 0, "few": r.choice([1, 2, 3])}.get(g("nans"))
    if k is not None:
        ctor["nan_angles_threshold"] = k
    grid = int(g("grid")[1:])
    if grid != 5:
        ctor["anomaly_grid_size"] = grid
    ptrb = None
    if g("ptrb") == "fun":
        ptrb = Fun(0.3*nthr*mu/a0**2, a0)
        ctor["perturbations"] = ptrb
    return r, et, integ, ctor, oe0, oeT, args, ptrb, steps


def thresholds(r, run, calls):
    k = run["eff"]
    def fun(which, lo, hi):
        def f(t, oe, mass, battery):
            v = lo + (hi - lo)*(0.5 + 0.5*math.sin(3*float(t) + float(oe[5]) + 7*float(mass) - 2*float(battery)))
            calls.append(dict(t=fs(t), oe=fv(oe), m=fs(mass), b=fs(battery), ret=fs(v), which=which))
            return v
        return f
    ca, cr = r.uniform(0.3, 0.9), r.uniform(0.2, 0.8)
    z = 0.0
    # thresholds that only gate the evaluation, and thresholds nobody passes
    ta, tr = 10**r.uniform(-12, -2), 10**r.uniform(-12, -2)
    over = r.choice([(1.0, cr), (z, 1.0), (1.5, z), (ca, 2.0), (1.0000001, 1.0000001), (ta, 1.1), (1.1, tr), (ta, 1.0), (1 - 1e-9, z), (z, 1 - 1e-9)])
    if k in ("abs", "rel", "both") and r.random() < 0.25:
        ca, cr = r.choice([(1.0, cr), (ca, 1.0), (1.5, cr), (ca, 2.0), (1.0000001, 1.0000001)])
    return {"none": (z, z), "abs": (ca, z), "rel": (z, cr), "both": (ca, cr), "fun-abs": (fun(1, -0.3, 0.9), z), "fun-rel": (z, fun(2, -0.3, 0.8)),
            "fun-both": (fun(1, 0.0, 0.8), fun(2, 0.0, 0.8)), "mixed": (ca, fun(2, 0.0, 0.7)),
            "fun-over": r.choice([(fun(1, -1.0, 2.5), z), (z, fun(2, -1.0, 2.5)), (fun(1, -0.5, 1.5), fun(2, -0.5, 1.5)), (ca, fun(2, 0.9, 3.0))]), "tiny": (ta, tr), "tiny-abs": (ta, z), "tiny-rel": (z, tr), "over": over}[k]


def earlier(p, tag, how, oe0, oeT, args, ea, er):
    """what the object was used for before: results of the solve to come must not depend on it"""
    if how.startswith("none"):
        return
    r = rng("before/" + tag)
    kw = dict(args)
    x0, xT = np.array(oe0), np.array(oeT)
    if how == "short":              # the same problem, given less time
        kw["tf_max"] = args["tf_max"]*r.uniform(0.05, 0.6)
    elif how == "other":            # another vehicle, started elsewhere
        x0[5] += r.uniform(0.5, 3); xT[0] *= r.uniform(0.9, 1.1)
        kw["mass0"] = args["mass0"]*r.uniform(1.1, 2); kw["tf_max"] = args["tf_max"]*r.uniform(0.1, 0.6)
        kw["woe"] = [r.choice([1.0, r.uniform(.1, 5)]) for _ in range(5)]
        if r.random() < .5:
            kw["duty_cycle"] = (abs(args["tf_max"])*r.uniform(0.01, 0.3), abs(args["tf_max"])*r.uniform(0.05, 0.5))
        if r.random() < .5:
            kw.pop("battery_charge_discharge_rate", None); kw["require_full_recharge"] = not args.get("require_full_recharge", False)
    p.set_problem(x0, xT, **kw)
    p.solve(eta_a=ea, eta_r=er)


def go(item):
    idx, run = item["id"], item["case"]
    r, et, integ, ctor, oe0, oeT, args, ptrb, steps = problem(idx, run)
    rec = {"id": idx, "kind": "run", "exact": False, "error": "", "endless": False}
    describe(rec, et, integ, ctor, oe0, oeT, args)
    calls = []
    ea, er = thresholds(r, run, calls)
    rec["fixeta"] = not callable(ea) and not callable(er)
    rec["etafix"] = [fs(ea), fs(er)] if rec["fixeta"] else ["0", "0"]
    rec["haseta"] = callable(ea) or callable(er)
    p = None
    try:
        with Alarm(120 if run["len"] == "huge" else 30), Quiet():
            p = pyqlaw.QLaw(elements_type=et, integrator=integ, **ctor)
            earlier(p, f"run/{idx}", run["before"], oe0, oeT, args, ea, er)
            calls.clear()
            p.set_problem(np.array(oe0), np.array(oeT), **args)
            p.solve(eta_a=ea, eta_r=er)
    except Exception as ex:
        fail(rec, ex)
    late = rec["endless"] and collapsed(p, oe0, args, ctor)
    if late:
        rec["error"], rec["endless"] = "", False
    snapshot(rec, p, most=1 if late else 40000 if run["len"] == "huge" else 4000)
    # which calls belong to a two-function problem: every step needs both
    rec["etacalls"] = calls
    rec["etawhich"] = [w for w, f in ((1, ea), (2, er)) if callable(f)]
    try:
        with Quiet():
            rec["lastnan"] = steering(p)
    except Exception:
        rec["lastnan"] = "maybe"
    if ptrb is not None:
        rec["ptrb"] = [fv(ptrb(float(p.times[j]), p.states[j])) for j in range(len(rec["states"]))] if rec["error"] == "" else []
    else:
        rec["ptrb"] = []
    return rec
