"""Named regimes of CaseGen -> numbers."""
from common import *


def angle(r, k):
    pi = math.pi
    return {"zero": 0.0, "q1": r.uniform(.05, 1.5), "q2": r.uniform(1.6, 3.1), "q3": r.uniform(3.2, 4.6), "q4": r.uniform(4.8, 6.2),
            "half": pi, "quarter": pi/2, "threequarter": 3*pi/2, "neg": r.uniform(-6.2, -0.05),
            "turns": r.uniform(0, 6.28) + r.choice([-4, -2, 2, 4, 6])*pi}[k]


def sma(r, k):
    return {"one": r.uniform(0.7, 1.6), "small": 10**r.uniform(-3, -1), "big": 10**r.uniform(3, 6)}[k]


def ecc(r, k):
    return {"zero": 0.0, "tiny": 10**r.uniform(-6.5, -2.5), "low": r.uniform(0.005, 0.1), "mid": r.uniform(0.1, 0.6), "mid2": r.uniform(0.1, 0.6), "high": r.uniform(0.6, 0.93),
            "extreme": r.uniform(0.94, 0.995)}[k]


def inc(r, k):
    return {"zero": 0.0, "tiny": 10**r.uniform(-6.5, -2), "low": r.uniform(0.02, 0.4), "mid": r.uniform(0.4, 1.5), "right": math.pi/2,
            "retro": r.uniform(1.65, 2.9), "near-pi": math.pi - 10**r.uniform(-3, -1)}[k]


def gm(r, k):
    return {"one": 1.0, "earth": 398600.44, "small": r.uniform(0.01, 0.5), "sun": 1.32712440018e11, "tiny": 10**r.uniform(-12, -3), "huge": 10**r.uniform(12, 20)}[k]


def kep(r, c):
    return [sma(r, c["a"]), ecc(r, c["e"]), inc(r, c["i"]), angle(r, c["O"]), angle(r, c["w"]), angle(r, c["t"])]


def as_mee(k, with_a):
    a, e, i, O, w, t = k
    th = math.tan(i/2)
    return [a if with_a else a*(1 - e*e), e*math.cos(O + w), e*math.sin(O + w), th*math.cos(O), th*math.sin(O), O + w + t]


def as_sv(k, mu):
    a, e, i, O, w, t = k
    p = a*(1 - e*e)
    n = np.array([math.cos(O), math.sin(O), 0.0])
    m = np.array([-math.sin(O)*math.cos(i), math.cos(O)*math.cos(i), math.sin(i)])
    u = w + t
    rr = p/(1 + e*math.cos(t))
    v = math.sqrt(mu/p)
    rv = rr*(math.cos(u)*n + math.sin(u)*m)
    vv = v*(-(math.sin(u) + e*math.sin(w))*n + (math.cos(u) + e*math.cos(w))*m)
    return list(map(float, rv)) + list(map(float, vv))


def pick(name):
    """a function of pyqlaw by name, wherever the package keeps it; None if it is gone"""
    import importlib, pkgutil
    if hasattr(pyqlaw, name):
        return getattr(pyqlaw, name)
    for m in pkgutil.iter_modules(pyqlaw.__path__):
        try:
            mod = importlib.import_module("pyqlaw." + m.name)
        except Exception:
            continue
        if hasattr(mod, name):
            return getattr(mod, name)
    return None


def call(rec, what, fn, *args, **kw):
    """call it; an exception becomes part of the record"""
    if fn is None:
        return None
    try:
        with Alarm(30), Quiet():
            return fn(*args, **kw)
    except Exception as ex:
        rec["errors"].append([what, err_name(ex)])
        return None
