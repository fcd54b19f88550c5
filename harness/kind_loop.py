"""Kind "loop": replay a behaviour of LoopGen on the real solver.

The environment script of a behaviour is made to happen through public plug-in points only:
  eta_a callable      returns 0 (thrust) or 1e9 (coast) for the step
  perturbations object  pushes the semimajor axis, in one step, to the distance from the target that realises the
                        scripted convergence class and makes the steering defined or undefined at the next state
Thrust is 1e-30, so the trajectory is moved by the script alone; ticks are exact binary fractions.
"""
import json, sys, random
from common import *

TOL, RELF = 1e-5, 10.0                        # tolerance, relaxation factor: relaxed band 1e-4
# distance from the target semimajor axis that realises (class, steering undefined)
DIST = {"A": {("tight", False): 3e-6, ("relaxed", False): 5e-5, ("none", False): 3e-4, ("none", True): 1e-3},
        "B": {("tight", False): 3e-6, ("relaxed", False): 2e-5, ("relaxed", True): 8e-5, ("none", True): 4e-4}}
MPET = {"A": 5.5e-4, "B": 4e-5}
NPET = 20000.0


class Units:
    """time, mass, charge and length per tick: powers of two, so that the arithmetic stays exact whatever the units are"""
    def __init__(self, idx, et):
        r = rng(f"units/{idx}")
        plain = r.random() < 0.4
        self.t = 0.25 if plain else 2.0**r.choice([-8, -2, 0, 3, 6, 12])
        self.m = 2.0**-4 if plain else 2.0**r.choice([-7, -4, 0, 6])
        self.b = 2.0**-3 if plain else 2.0**r.choice([-10, -3, 0, 5, 10])
        self.a = 1.0 if plain else 2.0**r.choice([0, -2, 4] + [13]*(et == "mee_with_a"))
        self.mu = self.a**3*(0.25/self.t)**2

class Script:
    def __init__(self, b, et, u):
        self.b, self.et, self.i, self.u = b, et, -1, u
        self.eta_calls = []
        self.ptrb_calls = []

    def step(self, i):
        st = self.b["steps"]
        return st[i] if i < len(st) else None

    # public plug-in: perturbation object
    def get_perturbations_RTN(self, t, oe, elements_type):
        i = len(self.ptrb_calls)
        self.ptrb_calls.append((float(t), [float(x) for x in oe]))
        if i > 2*len(self.b["steps"]) + 60:
            raise Limit("the run does not end")
        for j, st in enumerate(self.b["steps"]):
            if abs(st["t"] - st["dt"] - t/self.u.t) < 1e-6:
                i = j
                break
        u = self.u
        st = self.step(i)
        if st is None:
            return np.zeros(3)
        a, mu = float(oe[0]), u.mu
        if elements_type == "keplerian":
            e, ta = float(oe[1]), float(oe[5])
        else:
            e = math.hypot(oe[1], oe[2]); ta = float(oe[5]) - math.atan2(oe[2], oe[1])
        p = a*(1 - e*e); h = math.sqrt(mu*p); r = p/(1 + e*math.cos(ta))
        sgn = 1 if i % 2 else -1
        goal = u.a*(1 + sgn*DIST[self.b["c"]["prof"]][(st["cls"], st["nextnan"])])
        return np.array([0.0, (goal - a)/(st["dt"]*u.t)/(2*a*a/h*p/r), 0.0])

    # public plug-in: threshold function
    def eta(self, t, oe, mass, battery):
        tk = t/self.u.t
        ret = 1e9 if self.b["coastlast"] else 0.0
        for st in self.b["steps"]:                  # the step it belongs to: same time as scripted
            if abs(st["t"] - st["dt"] - tk) < 1e-6:
                ret = 1e9 if st["coast"] else 0.0
                break
        self.eta_calls.append((float(t), [float(x) for x in oe], float(mass), float(battery), ret))
        return ret


def go(item):
    idx, b, et, integ = item["id"], item["b"], item["et"], item["integ"]
    c = b["c"]
    u = Units(idx, et)
    TT, MT, BT, AT = u.t, u.m, u.b, u.a
    oe0 = np.array([AT*(1 - DIST[c["prof"]][("none", b["nan0"])]), 0.2, 0.5, 0.7, 1.1, 0.3])
    oeT = np.array([AT, 0.3, 0.9, 1.4, 2.0])
    if et == "mee_with_a":
        oe0 = np.array([oe0[0], 0.15, -0.12, 0.2, 0.1, 0.3]); oeT = np.array([AT, 0.1, 0.1, 0.3, 0.3])
    big = lambda v: 1e16 if v >= 100000 else v*TT
    s = Script(b, et, u)
    args = dict(mass0=c["mass0"]*MT, tmax=1e-30, mdot=c["mdot"]*MT/TT, tf_max=c["tf"]*TT, t_step=c["dt"]*TT,
                mass_min=c["massMin"]*MT, woe=[1.0, 0.0, 0.0, 0.0, 0.0], duty_cycle=(big(c["on"]), c["off"]*TT),
                battery_initial=c["b0"]*BT, battery_capacity=(c["floor"]*BT, c["cap"]*BT),
                battery_charge_discharge_rate=(c["rc"]*BT/TT, c["rd"]*BT/TT), require_full_recharge=c["full"])
    if c["dt"] < 0 and idx % 2:
        args["tf_max"] = -args["tf_max"]
    ctor = dict(mu=u.mu, tol_oe=[TOL*AT]*5, relaxed_tol_factor=RELF, exit_at_relaxed=c["relN"], nan_angles_threshold=c["nanMax"],
                m_petro=MPET[c["prof"]], n_petro=NPET, r_petro=1.0)
    rec = {"id": idx, "kind": "loop", "exact": True, "error": "", "endless": False, "plan": b, "hasplan": True, "tt": fx(TT), "mt": fx(MT), "bt": fx(BT)}
    describe(rec, et, integ, ctor, oe0, oeT, args, fx)
    how = rng(f"before/{idx}").choice(["none", "none", "same", "short", "again"])
    p = None
    try:
        with Alarm(60), Quiet():
            p = pyqlaw.QLaw(elements_type=et, integrator=integ, verbosity=0, perturbations=s, **ctor)
            if how != "none":           # an object that has solved before
                kw = dict(args)
                if how == "short":
                    kw["tf_max"] = args["tf_max"]*.5
                p.set_problem(oe0.copy(), oeT.copy(), **kw)
                p.solve(eta_a=s.eta, eta_r=0.0)
                s.ptrb_calls.clear(); s.eta_calls.clear()
                if how != "again":      # solved once more without posing the problem again
                    p.set_problem(oe0.copy(), oeT.copy(), **args)
            else:
                p.set_problem(oe0.copy(), oeT.copy(), **args)
            p.solve(eta_a=s.eta, eta_r=0.0)
    except Exception as ex:
        fail(rec, ex)
    snapshot(rec, p, fx, most=4000)
    try:
        d = abs(float(p.states[-1][0]) - AT)/AT
        rec["lastnan"] = "no" if d < {"A": 5e-4, "B": 3e-5}[c["prof"]] else "maybe"
    except Exception:
        rec["lastnan"] = "maybe"
    rec["etacalls"] = [dict(t=fx(t), oe=fv(oe), m=fx(m), b=fx(bb), ret=fs(ret), which=1) for t, oe, m, bb, ret in s.eta_calls]
    rec["haseta"] = True
    rec["fixeta"] = False
    rec["etafix"] = ["0", "0"]
    rec["ptrb"] = []
    return rec
