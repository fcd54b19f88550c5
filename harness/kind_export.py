"""Kind "export": solve a problem of CaseGen, then export it every way."""
from regimes import *
import tempfile
import kind_run


def solved(case, tag, exactly=0):
    """(object, record without exports, rng); problems that cannot be solved leave p None"""
    r, et, integ, ctor, oe0, oeT, args, ptrb, steps = kind_run.problem(tag, case)
    if exactly and not ctor["use_sundman"]:
        # a run of this many steps (unless something else ends it)
        args["tf_max"] = (exactly - 0.5)*abs(args["t_step"])
    if random.Random(f"none-{tag}").random() < .05:
        args["tf_max"] = 0.0                # no time allowed: a run without steps
    rec = dict(id=tag, errors=[], case=case, note="")
    describe(rec, et, integ, ctor, oe0, oeT, args)
    calls = []
    ea, er = kind_run.thresholds(r, case, calls)
    p = None
    rec["printed"] = ""
    try:
        with Alarm(60), Quiet() as buf:
            p = pyqlaw.QLaw(elements_type=et, integrator=integ, **ctor)
            kind_run.earlier(p, f"export/{tag}", case.get("before", "none"), oe0, oeT, args, ea, er)
            buf.truncate(0); buf.seek(0)
            p.set_problem(np.array(oe0), np.array(oeT), **args)
            p.solve(eta_a=ea, eta_r=er)
        rec["printed"] = buf.getvalue()
    except Exception as ex:
        rec["note"] = err_name(ex)
        p = None
    rec["verb"] = ctor.get("verbosity", 1); rec["freq"] = ctor.get("print_frequency", 200)
    snapshot(rec, p)
    return p, rec, r


def rows(a):
    return [fv(x) for x in a]


def go(it):
    c = it["case"]
    need = {"linear": 2, "quadratic": 3, "cubic": 4}[c["kind"]]
    p, rec, r = solved(c, it["id"], need - 1 if c["steps"] == 7 else 0)
    rec.update(kind="export", id=it["id"], angles=c["angles"], dict=[], file=[], cart=[], interp=[], at=[], mid=[], kept=True)
    if p is None:
        return rec
    before = {}; snapshot(before, p)
    cu = {"LU": 6378.0, "TU": 806.8, "name": "x"} if c["units"] == "dict" else None
    path = None
    if c["file"]:
        fd, path = tempfile.mkstemp(prefix="verif-export-"); os.close(fd)
    kw = dict(save_control_angles=True) if c["angles"] else {}
    if cu is not None or c["evals"]:
        kw["canonical_units"] = cu
    def view(d):
        return dict(keys=sorted(d), t0=fs(d["t0"]), tf=fs(d["tf"]), times=fv(d["times"]), states=rows(d["states"]), controls=rows(d["controls"]),
                    units=json.dumps(d["canonical_units"], sort_keys=True))
    d = call(rec, "save_to_dict", p.save_to_dict, path, **kw)
    if d is not None:
        try:
            rec["dict"] = [view(d)]
        except Exception as ex:
            rec["errors"].append(["dictionary", err_name(ex)])
    rec["units"] = json.dumps(cu, sort_keys=True)
    if path:
        try:
            rec["file"] = [view(json.load(open(path)))]
        except Exception as ex:
            rec["errors"].append(["file", err_name(ex)])
        os.unlink(path)
    h = call(rec, "get_cartesian_history", p.get_cartesian_history)
    if h is not None:
        rec["cart"] = [rows(np.asarray(h).T)]
    n = len(p.times)
    if n >= need and all(math.isfinite(t) for t in p.times) and len(set(p.times)) == n:
        f = call(rec, "interpolate_states", p.interpolate_states, kind=c["kind"])
        if f is not None:
            rec["at"] = [fv([g(t) for g in f]) for t in p.times]
            ts = [(p.times[j] + p.times[j+1])/2 for j in range(n - 1)]
            rec["mid"] = [[fs(t)] + fv([g(t) for g in f]) for t in ts]
            steps = c["steps"]
            kw = dict(interpolate=True, steps=steps, kind=c["kind"], get_t_evals=True)
            y = call(rec, "get_cartesian_history", p.get_cartesian_history, **kw)
            if y is not None:
                ca, te = y
                rec["interp"] = [dict(steps=steps, t=fv(te), cart=rows(np.asarray(ca).T), el=[fv([g(t) for g in f]) for t in te])]
            if c["steps"] != 40:
                # the number of points left to the code
                kw.pop("steps")
                y = call(rec, "get_cartesian_history", p.get_cartesian_history, **kw)
                if y is not None:
                    ca, te = np.asarray(y[0]), np.asarray(y[1])
                    sel = sorted(set([0, len(te)//2, len(te) - 1])) if len(te) else []
                    rec["interp"].append(dict(steps=0, t=fv(te[sel]) if sel else [], cart=rows(ca.T[sel]) if sel else [],
                                              el=[fv([g(t) for g in f]) for t in te[sel]]))
            plain = call(rec, "get_cartesian_history", p.get_cartesian_history, interpolate=True, steps=steps, kind=c["kind"])
            if plain is not None and rec["interp"] and rows(np.asarray(plain).T) != rec["interp"][0]["cart"]:
                rec["errors"].append(["get_cartesian_history", "asking for the times changes the history"])
    rec["kind_i"] = c["kind"]
    after = {}; snapshot(after, p)
    rec["kept"] = before == after
    return rec
