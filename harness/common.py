"""Shared by all drivers: import pyqlaw from /repo quietly, record a solve through the public API only."""
import os, sys, warnings, signal, json, random, math, io, contextlib, copy
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import numpy as np
np.seterr(all="ignore")
import pyqlaw

assert os.path.realpath(pyqlaw.__file__).startswith(os.path.realpath(REPO) + os.sep), pyqlaw.__file__

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def rng(tag):
    return random.Random(f"{SEED}/{tag}")


def fs(x):
    """float -> shortest decimal string ('nan', 'inf', '-inf' for specials)"""
    try:
        x = float(x)
    except Exception:
        return "nan"
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def fx(x):
    """float -> exact binary value as decimal string (for tick-exact runs)"""
    from decimal import Decimal
    try:
        x = float(x)
    except Exception:
        return "nan"
    if math.isnan(x) or math.isinf(x):
        return fs(x)
    return format(Decimal(x), "f") if 1e-20 < abs(x) < 1e20 or x == 0 else repr(x)


def fv(v):
    try:
        return [fs(x) for x in np.asarray(v, dtype=float).ravel()]
    except Exception:
        return ["nan"]


class Limit(Exception):
    pass


class Alarm:
    """raise Limit in the main thread after `seconds` of work (a run that does not end); a loaded machine is no reason"""
    def __init__(self, seconds):
        self.seconds = seconds
    def __enter__(self):
        def h(*a):
            raise Limit(f"no end after {self.seconds} s")
        self.old = [(s, signal.signal(s, h)) for s in (signal.SIGALRM, signal.SIGPROF)]
        signal.setitimer(signal.ITIMER_PROF, self.seconds)
        signal.alarm(5*self.seconds)
        return self
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        for s, h in self.old:
            signal.signal(s, h)
        return False


def speed_up():
    """The symbolic derivation takes a second and is a pure function without arguments that matter here: do it once
    per process.  Skipped when the code is organised differently."""
    try:
        from pyqlaw import _qlaw as m
        for name in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
            f = getattr(m, name, None)
            if f is None:
                continue
            cache = {}
            def g(*a, _f=f, _c=cache, **k):
                key = (a, tuple(sorted(k.items())))
                if key not in _c:
                    _c[key] = _f(*a, **k)
                return _c[key]
            setattr(m, name, g)
    except Exception:
        pass


def fail(rec, ex):
    rec["error"] = err_name(ex)
    rec["endless"] = isinstance(ex, Limit)


def err_name(ex):
    return type(ex).__name__ + ": " + str(ex).splitlines()[0][:160] if str(ex) else type(ex).__name__


def out(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")


DEF_MIN = {"keplerian": [0.05, 1e-4, 1e-4, 1e-4, 1e-4], "mee_with_a": [0.05] + [-math.inf]*4}
DEF_MAX = {"keplerian": [1e2, 0.95, math.pi, math.inf, math.inf], "mee_with_a": [1e2, 10.0, 10.0, math.inf, math.inf]}
DEF_ARGS = dict(tf_max=100000.0, t_step=0.1, mass_min=0.1, woe=None, duty_cycle=(1e16, 0.0), battery_initial=1.0,
                battery_capacity=(0.2, 1.0), battery_charge_discharge_rate=(0.0, 0.0), require_full_recharge=False)


def lst0(p, name):
    v = getattr(p, name, None)
    return [] if v is None else list(v)


def snapshot(rec, p, f=fs, most=0, keep=400):
    """all recorded histories, as recorded; of a run that took more steps than any sound one would, only the beginning is judged"""
    drop = max(0, len(lst0(p, "times")) - keep) if most and len(lst0(p, "times")) > most else 0
    rec["cut"] = drop > 0
    def lst(p, name):
        v = lst0(p, name)
        return v[:len(v) - drop] if drop else v
    rec["times"] = [f(x) for x in lst(p, "times")]
    rec["mass"] = [f(x) for x in lst(p, "masses")]
    rec["batt"] = [f(x) for x in lst(p, "battery")]
    rec["states"] = [fv(x) for x in lst(p, "states")]
    rec["ctrl"] = [fv(x) for x in lst(p, "controls")]
    rec["etas"] = [fv(x) for x in lst(p, "etas")]
    rec["bounds"] = [fv(x) for x in lst(p, "etas_bounds")]
    rec["Qs"] = [fs(x) for x in lst(p, "Qs")]
    rec["dQ"] = [fs(x) for x in lst(p, "dQdts")]
    code = getattr(p, "exitcode", None)
    try:
        rec["code"] = int(code) if float(code) == int(code) else 99
    except Exception:
        rec["code"] = 99
    rec["conv"] = bool(getattr(p, "converge", False)) is True


def describe(rec, et, integ, ctor, oe0, oeT, args, f=fs):
    """the problem as it was posed: what the documentation says each argument means, with the documented defaults"""
    a = dict(DEF_ARGS); a.update(args)
    relf = ctor.get("relaxed_tol_factor", 10)
    tol = ctor.get("tol_oe") if ctor.get("tol_oe") is not None else [1e-3]*5
    woe = a["woe"] if a["woe"] is not None else [1.0]*5
    lo = ctor.get("oe_min") if ctor.get("oe_min") is not None else DEF_MIN[et]
    hi = ctor.get("oe_max") if ctor.get("oe_max") is not None else DEF_MAX[et]
    rec.update(et=et, integ=integ, sund=bool(ctor.get("use_sundman", False)), mu=fs(ctor.get("mu", 1.0)),
               tmax=fs(a["tmax"]), grid=int(ctor.get("anomaly_grid_size", 5)),
               par=dict(rpmin=fs(ctor.get("rpmin", 0.1)), k=fs(ctor.get("k_petro", 1.0)), m=fs(ctor.get("m_petro", 3.0)),
                        n=fs(ctor.get("n_petro", 4.0)), r=fs(ctor.get("r_petro", 2.0)), b=fs(ctor.get("b_petro", 0.01)),
                        wp=fs(ctor.get("wp", 1.0))),
               oe0=fv(oe0), oeT=fv(list(oeT)[:5]), woe=fv(woe), tol=fv(tol), relf=fs(relf),
               oemin=fv(list(lo)[:5]) + ["-inf"], oemax=fv(list(hi)[:5]) + ["inf"],
               backward=a["t_step"] < 0,
               cfg=dict(tf=f(a["tf_max"]), dt=f(a["t_step"]), mass0=f(a["mass0"]), mdot=f(a["mdot"]), massMin=f(a["mass_min"]),
                        on=f(a["duty_cycle"][0]), off=f(a["duty_cycle"][1]), b0=f(a["battery_initial"]),
                        floor=f(a["battery_capacity"][0]), cap=f(a["battery_capacity"][1]),
                        rc=f(a["battery_charge_discharge_rate"][0]), rd=f(a["battery_charge_discharge_rate"][1]),
                        full=bool(a["require_full_recharge"]), relN=int(ctor.get("exit_at_relaxed", 100)),
                        nanMax=int(ctor.get("nan_angles_threshold", 10))))


def steering(p):
    """(defined?) of the steering at the final recorded state, through the solver's public law; 'maybe' if unknown"""
    try:
        r = p.lyap_fun(p.mu, 1e-3, np.array(p.states[-1], dtype=float), p.oeT, p.rpmin, p.m_petro, p.n_petro, p.r_petro, p.b_petro,
                       p.k_petro, p.wp, p.woe)
        u = np.array([float(x) for x in r[0]])
        n = np.sqrt(u[0]**2 + u[1]**2 + u[2]**2)
        return "no" if np.all(np.isfinite(u)) and 1e-150 < n < 1e150 else "maybe"
    except Exception:
        return "maybe"


class Quiet:
    """everything printed goes to a buffer"""
    def __enter__(self):
        self.buf = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.buf); self.cm.__enter__()
        self.cm2 = contextlib.redirect_stderr(io.StringIO()); self.cm2.__enter__()
        return self.buf
    def __exit__(self, *a):
        self.cm2.__exit__(*a); self.cm.__exit__(*a)
        return False
