"""Kind "session": a sequence of public calls on several objects; after each call, what every object shows."""
from regimes import *
import hashlib, tempfile, shutil
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import kind_run


class UserFailure(Exception):
    pass


def digest(p):
    if p is None:
        return ""
    rec = {}
    snapshot(rec, p)
    return hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:16]


class Session:
    def __init__(self, idx):
        r = self.r = rng(f"session/{idx}")
        self.l = rng(f"session/look/{idx}")
        # classes of configurations, gravitational parameters, problems, thresholds
        # a unit of time other than the natural one: slower by the square root of this
        self.slow = s = r.choice([1.0, 10**r.uniform(0, 5)])
        self.mus = [1.0/s, r.choice([0.7, 2.5])/s]
        self.ptrb = kind_run.Fun(1e-4)
        self.classes = []
        for c in range(3):
            et = r.choice(["keplerian", "mee_with_a"])
            k = dict(elements_type=et, use_sundman=r.random() < .3 and s == 1.0)
            if r.random() < .5:
                k["tol_oe"] = np.array([10**r.uniform(-4, -1.5) for _ in range(5)])
                k["relaxed_tol_factor"] = r.choice([1, 3, 10])
                k["exit_at_relaxed"] = r.choice([1, 3, 100])
            if r.random() < .4:
                k.update(rpmin=r.uniform(.1, .5), k_petro=r.uniform(.5, 3), wp=r.uniform(0, 2), b_petro=r.uniform(.001, .2), m_petro=r.uniform(1, 4))
            if r.random() < .4:
                k["oe_min"] = np.array([.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]); k["oe_max"] = np.array([r.uniform(.9, 1.5), r.uniform(.3, .9), r.uniform(.6, 3.), r.uniform(3, 9.), 9., 99.])
            if r.random() < .5:
                k["nan_angles_threshold"] = r.choice([0, 1, 3])
            if r.random() < .3:
                k["perturbations"] = self.ptrb
            if r.random() < .3:
                k["anomaly_grid_size"] = r.choice([3, 8])
            self.classes.append(k)
        self.problems = [self.problem() for _ in range(3)]
        def fun(t, oe, mass, battery):
            return 0.4 + 0.3*math.sin(float(t) + float(oe[5]))
        self.etas = [(0.0, 0.0), (r.uniform(.2, .8), r.uniform(.1, .6)), (0.1, fun)]
        self.objs = {1: None, 2: None, 3: None}
        self.conf = {}
        self.held = []
        self.dir = tempfile.mkdtemp(prefix="verif-session-")
        self.user = [a for p in self.problems for a in p["arrays"]] + [a for k in self.classes for a in k.values() if isinstance(a, np.ndarray)]

    def problem(self):
        r = self.r
        k0 = [r.uniform(.8, 1.3), r.uniform(.02, .5), r.uniform(.1, 1.2)] + [r.uniform(.1, 6) for _ in range(3)]
        k1 = [k0[0]*r.uniform(.8, 1.3), r.uniform(.02, .5), k0[2] + r.uniform(-.05, .3), r.uniform(.1, 6), r.uniform(.1, 6), r.uniform(0, 6)]
        if r.random() < .3:
            k1 = [k0[j]*(1 + r.uniform(-1, 1)*.01) for j in range(5)] + [0.0]
        n = 5 if r.random() < .7 else 6
        e0 = {"keplerian": np.array(k0), "mee_with_a": np.array(as_mee(k0, True))}
        eT = {"keplerian": np.array(k1[:n]), "mee_with_a": np.array(as_mee(k1, True)[:n])}
        if r.random() < .25:
            e0["mee_with_a"][1:3] = 0.0        # circular: the steering is undefined
        tf = r.uniform(1, 5)
        kw = dict(mass0=r.uniform(.8, 1.2), tmax=10**r.uniform(-3.5, -1.5), mdot=10**r.uniform(-4, -2), tf_max=tf, t_step=r.uniform(.1, .3))
        arrays = list(e0.values()) + list(eT.values())
        if r.random() < .5:
            kw["woe"] = np.array([r.uniform(.2, 3) for _ in range(5)])*r.choice([1.0]*7 + [0.0]); arrays.append(kw["woe"])
        if r.random() < .5:
            kw["duty_cycle"] = [r.uniform(.2, 1.5), r.uniform(.1, 1)]
        if r.random() < .6:
            kw["battery_capacity"] = [.2, 1.0]; kw["battery_charge_discharge_rate"] = [r.uniform(.1, .8), r.uniform(.1, .8)]
            kw["require_full_recharge"] = r.random() < .5; kw["battery_initial"] = r.uniform(.3, 1)
        if r.random() < .2:
            kw["mass_min"] = kw["mass0"] - kw["mdot"]*r.uniform(.3, 2)
        if r.random() < .2:
            kw["t_step"] *= -1
            kw.pop("battery_charge_discharge_rate", None)
        q = math.sqrt(self.slow)
        for k in ("tf_max", "t_step"):
            kw[k] *= q
        kw["tmax"] /= self.slow; kw["mdot"] /= q
        for k, f in (("duty_cycle", q), ("battery_charge_discharge_rate", 1/q)):
            if k in kw:
                kw[k] = [x*f for x in kw[k]]
        return dict(oe0=e0, oeT=eT, kw=kw, arrays=arrays)

    def inputs(self):
        h = hashlib.sha1()
        for a in self.user:
            h.update(repr((a.dtype, a.shape, a.tolist(), a.flags.writeable)).encode())
        for p in self.problems:
            h.update(repr(p["kw"]).encode())
        for k in self.classes:
            h.update(repr(sorted((n, v) for n, v in k.items() if not isinstance(v, (np.ndarray, kind_run.Fun)))).encode())
        return h.hexdigest()[:16]

    def look(self, p, w):
        r = self.l
        flag = lambda: r.random() < .5
        unit = lambda: dict(TU=r.choice([1.0, 1/86400, 3.5]), time_unit_name=r.choice(["TU", "days"]))
        long = len(p.times) > 4
        f = {"elements": lambda: p.plot_elements_history(plot_mass=flag(), plot_periapsis=flag(), **unit()),
             "kepler": lambda: p.plot_elements_history(to_keplerian=True, plot_mass=flag(), plot_periapsis=flag(), **unit()),
             "battery": lambda: p.plot_battery_history(BU=r.choice([1.0, 2.5]), **unit()), "controls": lambda: p.plot_controls(show_anomaly=flag(), **unit()),
             "efficiency": lambda: p.plot_efficiency(**unit()), "Q": lambda: p.plot_Q(**unit()),
             "traj2d": lambda: p.plot_trajectory_2d(interpolate=long and flag(), steps=r.choice([None, 7])),
             "traj3d": lambda: p.plot_trajectory_3d(interpolate=long and flag(), steps=r.choice([None, 7]), plot_sphere=flag(), scale=r.choice([1.02, 3])),
             "pretty": lambda: p.pretty(), "results": lambda: p.pretty_results(), "settings": lambda: p.pretty_settings(),
             "dict": lambda: p.save_to_dict(None, canonical_units=r.choice([None, {"LU": 6378.0}])), "angles": lambda: p.save_to_dict(None, save_control_angles=True),
             "file": lambda: p.save_to_dict(os.path.join(self.dir, "x.json"), canonical_units={"LU": 1.0}, save_control_angles=flag()),
             "cart": lambda: p.get_cartesian_history(get_t_evals=flag()),
             "interp": lambda: p.get_cartesian_history(interpolate=True, steps=r.choice([9, 40, None]), kind=r.choice(["linear", "cubic", "quadratic"]) if long else "linear",
                                                       get_t_evals=flag())}[w]
        try:
            f()
        finally:
            plt.close("all")

    def do(self, op):
        p = self.objs[op["o"]]
        k = op["op"]
        if k == "new":
            c = self.classes[op["c"]-1]
            extra = dict(mu=self.mus[op["m"]-1], integrator=["rk4", "rkf45"][op["g"]-1], verbosity=op["q"])
            if op["q"] == 2:
                extra["print_frequency"] = self.r.choice([1, 7, 200])
            self.objs[op["o"]] = None
            self.objs[op["o"]] = pyqlaw.QLaw(**c, **extra)
            self.conf[op["o"]] = c["elements_type"]
            return
        if p is None:
            raise AssertionError("no object")
        et = self.conf[op["o"]]
        if k == "mu":
            p.mu = self.mus[op["m"]-1]
        elif k == "integ":
            p.integrator = ["rk4", "rkf45"][op["g"]-1]
        elif k == "set":
            q = self.problems[op["p"]-1]
            p.set_problem(q["oe0"][et], q["oeT"][et], **q["kw"])
        elif k == "badset":
            q = self.problems[0]
            kw = dict(q["kw"])
            oe0 = q["oe0"][et]
            if op["w"] == "oe0":
                oe0 = oe0[:5]
            elif op["w"] == "mass":
                kw["mass_min"] = 1e-3
            else:
                kw["woe"] = np.ones(4)
            p.set_problem(oe0, q["oeT"][et], **kw)
        elif k == "solve":
            ea, er = self.etas[op["e"]-1]
            with Alarm(60):
                p.solve(eta_a=ea, eta_r=er)
            self.held.append([p.times, p.states, p.masses, p.controls, p.battery, p.etas, p.Qs, None])
            self.held[-1][-1] = self.shot(self.held[-1])
        elif k == "abort":
            n = [0]
            def eta(t, oe, m, b):
                n[0] += 1
                if n[0] >= op["e"]:
                    raise UserFailure("mine")
                return 0.2
            with Alarm(60):
                p.solve(eta_a=eta, eta_r=0.1)
        elif k == "badsolve":
            p.solve(eta_a=None, eta_r=0.1)
        elif k == "look":
            self.look(p, op["w"])

    @staticmethod
    def shot(h):
        return repr([[fv(x) for x in q] for q in h[:-1]])


def go(it):
    s = Session(it["id"])
    rec = dict(id=it["id"], kind="session", inputs=s.inputs(), ops=[])
    try:
        for op in it["case"]["ops"]:
            o = dict(op, refused=False, err="")
            try:
                with Quiet():
                    s.do(op)
            except Exception as ex:
                o["refused"] = True
                o["err"] = "UserFailure" if isinstance(ex, UserFailure) else err_name(ex)
            o["dig"] = [digest(s.objs[i]) for i in (1, 2, 3)]
            o["inputs"] = s.inputs()
            o["held"] = all(s.shot(h) == h[-1] for h in s.held)
            rec["ops"].append(o)
    finally:
        shutil.rmtree(s.dir, ignore_errors=True)
    return rec
