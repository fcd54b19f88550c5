"""Kind "config": the configuration interface, option by option (contexts: module Config)."""
from regimes import *
import kind_run, kind_session


def val(text):
    return json.loads(text)


CTOR = {"oe_min", "oe_max", "tol_oe"}


def context(ctx, et):
    """(constructor arguments, problem arguments, thresholds) of a context"""
    k0 = [1.0, 0.2, 0.5, 0.8, 1.2, 0.4]
    kT = [1.3, 0.35, 0.7, 1.4, 2.0]
    oe0, oeT = (k0, kT) if et == "keplerian" else (as_mee(k0, True), as_mee(kT + [0.0], True)[:5])
    c = dict(elements_type=et, verbosity=0)
    a = dict(oe0=oe0, oeT=oeT, mass0=1.0, tmax=1e-3, mdot=1e-3, tf_max=1.05, t_step=0.1)
    e = (0.0, 0.0)
    if ctx.startswith("near"):
        a.update(oeT=oe0[:5], oe0=[oe0[0] + 5e-4] + oe0[1:], tmax=1e-14, mdot=1e-9, tf_max=11.05)
        if ctx == "near2":
            c["tol_oe"] = [2e-4]*5
    elif ctx == "coarse":
        a.update(oeT=[9.0] + oe0[1:5], oe0=[12.0] + oe0[1:], tmax=1e-14, mdot=1e-9, tf_max=11.05)
    elif ctx == "nan":
        a.update(oeT=[math.nan] + oeT[1:], tf_max=11.05)
    elif ctx == "mass":
        a.update(mass0=0.10045)
    elif ctx in ("low", "high"):
        a["tf_max"] = 0.25
        if et == "keplerian":
            a["oe0"] = [0.04, 5e-5, 5e-5, -0.1, -0.2, 0.5] if ctx == "low" else [120.0, 0.97, 3.142, 40.0, 700.0, 0.5]
    elif ctx == "slow":
        c["mu"] = 1e-9
        a.update(t_step=2003.0, tmax=1e-13, mdot=1e-7)
        del a["tf_max"]
    elif ctx == "drain":
        a.update(battery_charge_discharge_rate=(0.0, 1.0), tf_max=2.05)
    elif ctx == "cycle":
        a.update(battery_charge_discharge_rate=(0.5, 2.0), tf_max=4.05)
    elif ctx == "relative":
        e = (0.0, 0.5)
    elif ctx == "talk2":
        c["verbosity"] = 2
        a["tf_max"] = 21.05
    return c, a, e


def run(c, a, e, rec=None, pre=None, fewer=(), assign=None, when="new"):
    """construct, pose, solve; what it shows"""
    c, a = dict(c), dict(a)
    o = dict(err="", stage="ctor", dig="", code=99, steps=0, q1="nan", s1=[], s2=[], t=[], b=[], m=[], thr=[], eb=[], printed="")
    p = None
    try:
        with Alarm(60), Quiet() as buf:
            ptrb = c.get("perturbations")
            if ptrb == "fun":
                c["perturbations"] = kind_run.Fun(1e-3)
            p = pyqlaw.QLaw(**c)
            o["stage"] = "assign"
            if assign and when == "new":
                assign(p)
            o["stage"] = "set"
            if pre:
                pre(p)
            if a is not None and "none" not in a:
                a["oe0"], a["oeT"] = (np.array(a[q]) if isinstance(a[q], list) else a[q] for q in ("oe0", "oeT"))
                pos = a.pop("_args", None)
                if pos:
                    p.set_problem(*[a.pop(q) for q in pos], **a)
                else:
                    p.set_problem(**a)
            o["stage"] = "solve"
            if assign and when == "set":
                assign(p)
            kw = {}
            if e[0] is not None:
                kw["eta_a"] = e[0]
            if e[1] is not None:
                kw["eta_r"] = e[1]
            p.solve(**{k: v for k, v in kw.items() if k not in fewer})
            if when == "solved":        # once more, after an assignment
                assign(p)
                p.solve(**{k: v for k, v in kw.items() if k not in fewer})
            o["stage"] = "done"
        o["printed"] = buf.getvalue()
    except Exception as ex:
        o["err"] = err_name(ex) or "?"
        return o
    s = {}
    snapshot(s, p)
    o.update(dig=kind_session.digest(p), code=s["code"], steps=len(s["ctrl"]), q1=s["Qs"][0] if s["Qs"] else "nan", s1=s["states"][0],
             s2=s["states"][1] if len(s["states"]) > 1 else [], t=s["times"][:2], b=s["batt"], m=s["mass"][:2], thr=[x[2] for x in s["ctrl"]], eb=s["bounds"])
    return o


def rows(text):
    """lines of a table of progress"""
    return sum(1 for l in text.splitlines() if l.count("|") >= 7 and l.split("|")[0].strip().isdigit())


def strip(o):
    t = o.pop("printed")
    o["silent"], o["rows"] = t.strip() == "", rows(t)
    return o


class Float(float):
    pass


def go(it):
    case = it["case"]
    form, et, opt = case["form"], case["et"], case["opt"]
    rec = dict(id=it["id"], kind="config", form=form, opt=opt, et=et, errors=[], case=case)
    if form == "option":
        rec.update(option(case, et, opt))
    elif form == "refuse":
        rec["stage"] = case["stage"]
        rec["tries"] = [refuse(case["stage"], opt, et, b, case["base"]) for b in case["bad"]]
    else:
        a, b = same(opt, et, case["base"], rng(f"config/{opt}/{et}/{case['base']}"))
        rec["a"], rec["b"] = strip(a), strip(b)
    return rec


def option(case, et, opt):
    base = case["base"]
    def posed(et):
        c, a, e = context(case["ctx"] if base == 1 else "plain", et)
        if base > 1:
            a["tmax"], a["mdot"], a["tf_max"] = 1e-3, 1e-3, 1.05
            e = loaded(c, a, et, base, rng(f"config/option/{opt}/{et}/{base}"))
        return c, a, e
    c, a, e = posed(et)
    out = []
    for text in [""] + [case["default"]] + case["others"]:
        cc, aa, ee, fewer = dict(c), dict(a), e, ()
        where = {"ctor": cc, "set": aa}.get(case["stage"])
        if where is not None:
            where.pop(opt, None)
        shown_et = et
        if text == "":
            if case["stage"] == "solve":
                ee = tuple(None if k == opt else v for k, v in zip(("eta_a", "eta_r"), e))
            if opt == "elements_type":
                shown_et = "mee_with_a"
        else:
            v = val(text)
            if isinstance(v, list) and opt in CTOR:
                v = np.array(v) if len(out) % 2 else v
            if where is not None:
                where[opt] = v
            else:
                ee = tuple(v if k == opt else x for k, x in zip(("eta_a", "eta_r"), e))
            if opt == "elements_type":
                shown_et = v
        if opt == "elements_type":
            _, aa, _ = posed(shown_et)
        o = run(cc, aa, ee)
        d = {}
        argd = {k: aa[k] for k in aa if k not in ("oe0", "oeT")}
        describe(d, shown_et, cc.get("integrator", "rk4"), {k: x for k, x in cc.items() if k not in ("elements_type",)}, aa["oe0"], aa["oeT"],
                 argd)
        # the value given, as text; the rest of the problem as posed
        out.append(dict(strip(o), v=text, etv=shown_et, par=d["par"], woe=d["woe"], mu=d["mu"], oe0=d["oe0"], oeT=d["oeT"], f=fs(aa["tmax"]/aa["mass0"]),
                        list=fv(val(text)) if text.startswith("[") else [text]))
    return dict(ctx=case["ctx"], base=base, runs=out, default=case["default"], dlist=fv(val(case["default"])) if case["default"].startswith("[") else [case["default"]])


def refuse(stage, opt, et, text, base):
    c, a, e = context("plain", et)
    if base > 1:
        e = loaded(c, a, et, base, rng(f"config/refuse/{stage}/{opt}/{text}/{et}/{base}"))
    v = val(text)
    t = dict(bad=text, same=True)
    if stage == "ptrb":
        import kind_ptrb
        kind_ptrb.kernels()
        p = pyqlaw.SpicePerturbations(0.0, 6378.0, 806.8, frame_PA="IAU_EARTH")
        try:
            with Quiet():
                p.get_perturbations_RTN(0.0, np.array([10.0, .1, .2, .3, .4, .5]), v)
            return dict(t, refused=False, err="")
        except Exception as ex:
            return dict(t, refused=True, err=err_name(ex))
    if stage.startswith("assign"):
        ref = run(c, a, e)
        got = {}
        def assign(p):
            try:
                setattr(p, opt, v)
                got["err"] = ""
            except Exception as ex:
                got["err"] = err_name(ex) or "?"
        o = run(c, a, e, assign=assign, when=stage[7:] or "new")
        return dict(t, refused=got.get("err", "") != "", err=got.get("err", ""), same=o["dig"] == ref["dig"])
    if stage == "ctor":
        c[opt] = v
    elif stage == "set":
        if opt == "oe0":
            a["oe0"] = (a["oe0"] + [0.1, 0.1])[:v]
        else:
            a[opt] = v
    elif opt == "oeT":
        a["oeT"] = (a["oeT"] + [0.1, 0.1])[:v]
    elif opt == "none":
        a = dict(none=1)
    else:
        e = tuple(v if k == opt else x for k, x in zip(("eta_a", "eta_r"), e))
    fewer = ()
    try:
        o = run(c, a, e) if not (opt in ("eta_a", "eta_r") and v is None) else none_eta(c, a, opt)
    except Exception as ex:
        return dict(t, refused=True, err=err_name(ex))
    return dict(t, refused=o["err"] != "", err=o["err"], at=o["stage"])


def none_eta(c, a, opt):
    p = pyqlaw.QLaw(**c)
    p.set_problem(np.array(a.pop("oe0")), np.array(a.pop("oeT")), **a)
    with Quiet():
        p.solve(**{opt: None})
    return dict(err="", stage="done")


def drawn(c, a, et, base, r):
    """another problem: special targets and starts, other settings"""
    k0 = [r.uniform(.8, 1.5), r.uniform(.02, .6), r.uniform(.1, 1.4)] + [r.uniform(.1, 6) for _ in range(3)]
    kT = [r.uniform(.8, 2.0), r.uniform(.01, .6), r.uniform(.05, 1.4), r.uniform(0, 6.2), r.uniform(0, 6.2)]
    if base == 2:
        kT[1] = 0.0
    elif base == 3:
        kT[2] = 0.0
    elif base == 4:
        kT[3] = kT[4] = 0.0
    elif base == 5:
        kT = [k0[0], 0.0, 0.0, 0.0, 0.0]
    a["oe0"], a["oeT"] = (k0, kT) if et == "keplerian" else (as_mee(k0, True), as_mee(kT + [0.0], True)[:5])
    a.update(mass0=r.uniform(.5, 3), tmax=10**r.uniform(-3.5, -2), t_step=r.uniform(.05, .2)*r.choice([1, 1, 1, -1]))
    c.update(mu=r.choice([1.0, r.uniform(.5, 2)]), use_sundman=r.random() < .3, integrator=r.choice(["rk4", "rkf45"]))
    if r.random() < .4:
        a["woe"] = [r.choice([0.0, 1.0, 2.5]) for _ in range(4)] + [1.0]


def loaded(c, a, et, base, r):
    """another problem, with other options set besides; thresholds"""
    drawn(c, a, et, base, r)
    if r.random() < .5:
        m = 10**r.uniform(1, 4)
        for k in ("mass0", "tmax", "mdot"):
            a[k] *= m
    if r.random() < .5:
        a["duty_cycle"] = (r.uniform(.1, .6), r.uniform(.1, .4))
    if r.random() < .5:
        a.update(battery_charge_discharge_rate=(r.uniform(.1, 2), r.uniform(.3, 3)), battery_initial=r.uniform(.3, 1), require_full_recharge=r.random() < .5)
    if r.random() < .3:
        a["mass_min"] = a["mass0"]*r.uniform(.2, .99)
    if r.random() < .5:
        c.update(rpmin=r.uniform(.05, .5), wp=r.choice([0.0, 1.0, 3.0]), k_petro=r.uniform(.5, 3), b_petro=r.uniform(.001, .2))
    if r.random() < .3:
        c["relaxed_tol_factor"], c["tol_oe"] = r.choice([1, 3, 100]), [10**r.uniform(-4, -2)]*5
    if r.random() < .3:
        c["perturbations"] = "fun"
    if r.random() < .3:
        c["verbosity"] = r.choice([1, 2])
    if r.random() < .3:
        c["anomaly_grid_size"] = r.choice([2, 3, 8])
    return r.choice([(0.0, 0.0), (0.3, 0.0), (0.0, 0.4), (0.2, 0.2), (1.1, 0.0)])


def same(how, et, base, r):
    c, a, e = context("plain", et)
    if base > 1:
        drawn(c, a, et, base, r)
    c2, a2, e2 = dict(c), dict(a), e
    x = y = {}
    if how == "six":
        a2["oeT"] = a["oeT"] + [0.3]
    elif how == "six-far":
        a2["oeT"] = a["oeT"] + [-77.7]
    elif how in ("tuple-woe", "array-woe"):
        a["woe"] = [0.5, 2.0, 1.0, 0.0, 3.0]
        a2["woe"] = (tuple if how == "tuple-woe" else np.array)(a["woe"])
    elif how == "int-woe":
        a["woe"] = [1.0, 2.0, 1.0, 0.0, 3.0]; a2["woe"] = [1, 2, 1, 0, 3]
    elif how in ("array-tol", "tuple-tol"):
        c["tol_oe"] = [0.4, 0.3, 0.3, 0.7, 0.9]
        c2["tol_oe"] = (tuple if how == "tuple-tol" else np.array)(c["tol_oe"])
    elif how == "list-duty":
        a["duty_cycle"] = (0.25, 0.3); a2["duty_cycle"] = [0.25, 0.3]
    elif how == "positional":
        order = ["oe0", "oeT", "mass0", "tmax", "mdot", "tf_max", "t_step"]
        a2["_args"] = order
    elif how == "fun-eta":
        e, e2 = (0.45, 0.0), ((lambda t, oe, m, b: 0.45), 0.0)
    elif how == "fun-eta-r":
        e, e2 = (0.0, 0.45), (0.0, (lambda t, oe, m, b: 0.45))
    elif how == "npfloat-eta":
        e, e2 = (0.45, 0.2), (np.float64(0.45), np.float64(0.2))
    elif how == "int-oe0":
        if et == "keplerian":
            a.update(oe0=np.array([2.0, 0.0, 1.0, 1.0, 2.0, 3.0])); a2["oe0"] = np.array([2, 0, 1, 1, 2, 3])
        a.update(mass0=2.0, battery_initial=1.0, t_step=1.0, tf_max=5.0, duty_cycle=(1.0, 1.0))
        a2.update(mass0=2, battery_initial=1, t_step=1, tf_max=5, duty_cycle=(1, 1))
    elif how == "int-relaxed":
        c["relaxed_tol_factor"] = 300.0; c2["relaxed_tol_factor"] = 300
        c["exit_at_relaxed"] = c2["exit_at_relaxed"] = 3
    elif how == "list-bounds":
        c["oe_min"] = [.5, .1, .1, .1, .1, 0.]; c["oe_max"] = [1.0001, .4, 1., 1., 2., 9.]
        c2["oe_min"], c2["oe_max"] = np.array(c["oe_min"]), np.array(c["oe_max"])
    elif how.startswith("mu-assigned"):
        c["mu"] = 1.9
        y = dict(assign=lambda p: setattr(p, "mu", 1.9), when=how[12:] or "new")
    elif how.startswith("integrator-assigned"):
        c["integrator"] = "rkf45"
        y = dict(assign=lambda p: setattr(p, "integrator", "rkf45"), when=how[20:] or "new")
    elif how == "reposed":
        def pre(p):
            b = dict(a, mass0=3.0, woe=[0.0, 1.0, 1.0, 1.0, 1.0], duty_cycle=(0.2, 0.2), mass_min=0.5, battery_initial=0.4, battery_capacity=(0.3, 0.9),
                     battery_charge_discharge_rate=(0.2, 0.3), require_full_recharge=True, tf_max=0.5, t_step=0.2)
            p.set_problem(np.array(b.pop("oe0"))*1.1, np.array(b.pop("oeT"))*0.9, **b)
        y = dict(pre=pre)
    elif how == "relaxed-one":
        c["relaxed_tol_factor"] = 1.0; c2["relaxed_tol_factor"] = 1
    elif how == "mass-min-edge":
        a["mass_min"] = 0.01; a2["mass_min"] = 1e-2
    return run(c, a, e, **x), run(c2, a2, e2, **y)
