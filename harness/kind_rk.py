"""Kind "rk": one integrator step of y_i' = c0_i + c1_i t + c2_i t^2 + sum_j A_ij y_j + q_i y_i y_{i+1} + s_i t y_i."""
from regimes import *
from numba import njit


@njit
def rhs(t, y, p):
    c0, c1, c2, A, q, s = p
    n = len(y)
    d = np.zeros(n)
    for i in range(n):
        v = c0[i] + c1[i]*t + c2[i]*t*t + q[i]*y[i]*y[(i + 1) % n] + s[i]*t*y[i]
        for j in range(n):
            v += A[i, j]*y[j]
        d[i] = v
    return d


def go(it):
    c = it["case"]
    r = rng(f"rk/{it['id']}")
    n, k = c["dim"], c["rhs"]
    some = lambda on, s=1.0: np.array([r.uniform(-s, s) if on else 0.0 for _ in range(n)])
    mixed = k.startswith("mixed")
    c0, c1, c2 = some(k in ("const", "time") or mixed), some(k == "time" or mixed), some(k == "time" or mixed)
    A = np.array([some(k == "linear" or mixed) for _ in range(n)])
    q, s = some(k == "quadratic" or mixed), some(k in ("quadratic",) or mixed)
    h = {"tiny": 1e-4, "small": r.uniform(.01, .05), "mid": r.uniform(.1, .4), "large": r.uniform(.5, 1.5), "neg": -r.uniform(.05, .3),
         "neglarge": -r.uniform(.5, 1.2)}[c["h"]]
    t = {"zero": 0.0, "pos": r.uniform(.3, 3), "neg": -r.uniform(.3, 3), "far": r.uniform(20, 60)}[c["t"]]
    if c["t"] == "far":
        c1, c2, s = c1*0.1, c2*0.01, s*0.02
    y = some(True, 2.0)
    tol = {"loose": 1e-3, "mid": 1e-6, "tight": 1e-10, "any": 10**r.uniform(-30, 8)}[c["tol"]]
    rec = dict(id=it["id"], kind="rk", integ=c["integ"], t=fs(t), h=fs(h), y=fv(y), c0=fv(c0), c1=fv(c1), c2=fv(c2), A=[fv(x) for x in A], q=fv(q),
               s=fv(s), tol=fs(1e-6 if c["integ"] == "rkf45-default" else tol), out=[], hnext="nan", errors=[], case=c)
    p = (c0, c1, c2, A, q, s)
    y0 = y.copy()
    if c["integ"] == "rk4":
        z = call(rec, "rk4", pick("rk4"), rhs, t, h, y, p)
        if z is not None:
            rec["out"] = fv(z)
    else:
        a = (tol,) if c["integ"] == "rkf45" else ()
        z = call(rec, "rkf45", pick("rkf45"), rhs, t, h, y, p, *a)
        if z is not None:
            rec["out"], rec["hnext"] = fv(z[0]), fs(z[1])
    rec["kept"] = bool(np.array_equal(y, y0))
    return rec
