"""Kind "ptrb": perturbing accelerations, singly and through SpicePerturbations with ephemerides and poles of our own."""
from regimes import *
import tempfile, atexit

_spice = None
T0 = 0.0
EPH = {"301": ([3.2e5, -1.9e5, 0.9e5], [6.0e-5, 9.0e-5, -3.0e-5]),          # km and km/s relative to 399, linear in time
       "10": ([-0.9e8, 1.1e8, 0.4e8], [-2.1e-2, -1.7e-2, 0.9e-2]),
       "499": ([1.3e8, 0.8e8, -0.2e8], [1.1e-2, -0.7e-2, 0.4e-2]),
       "5": ([-5.1e8, 4.2e8, 1.3e8], [0.9e-2, 0.8e-2, -0.3e-2])}
GM = {"399": 398600.4354, "301": 4902.8001, "10": 132712440041.9, "499": 42828.37, "5": 126712764.1}
POLE = {"399": dict(ra=[17.0, -640.0], dec=[71.0, -557.0], w=[190.147, 360.9856235]),
        "499": dict(ra=[317.68143, -480.0], dec=[52.8865, -610.0], w=[176.63, 350.89198226])}


def kernels():
    global _spice
    if _spice is not None:
        return _spice
    import spiceypy as sp
    d = tempfile.mkdtemp(prefix="verif-spk-")
    f = os.path.join(d, "own.bsp")
    h = sp.spkopn(f, "own", 0)
    a, b = -1.0e9, 1.0e9
    for k, (p, v) in EPH.items():
        st = [[p[i] + v[i]*(t - T0) for i in range(3)] + list(v) for t in (a, b)]
        sp.spkw08(h, int(k), 399, "J2000", a, b, "own", 1, 2, st, a, b - a)
    sp.spkcls(h)
    sp.furnsh(f)
    for k, g in GM.items():
        sp.pdpool(f"BODY{k}_GM", [g])
    for k, p in POLE.items():
        sp.pdpool(f"BODY{k}_POLE_RA", p["ra"] + [0.0])
        sp.pdpool(f"BODY{k}_POLE_DEC", p["dec"] + [0.0])
        sp.pdpool(f"BODY{k}_PM", p["w"] + [0.0])
    atexit.register(lambda: (sp.kclear(), os.unlink(f), os.rmdir(d)))
    _spice = sp
    return sp


def unit(r):
    v = np.array([r.gauss(0, 1) for _ in range(3)])
    return v/np.linalg.norm(v)


def rotation(r):
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    a, b, c, d = q/np.linalg.norm(q)
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
                     [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def position(r, g, s):
    """spacecraft position by its geometry relative to a third body at s"""
    n = np.linalg.norm(s)
    return {"near": lambda: unit(r)*n*10**r.uniform(-5, -2), "far": lambda: unit(r)*n*r.uniform(.2, .8), "beyond": lambda: unit(r)*n*r.uniform(1.5, 6),
            "aligned": lambda: s*r.choice([-1, 1])*r.choice([.01, .3, 2.0]), "axis": lambda: np.eye(3)[r.randrange(3)]*n*r.choice([.05, -.2])}.get(
                g, lambda: unit(r)*n*10**r.uniform(-3, 0.5))()


def go(it):
    c = it["case"]
    r = rng(f"ptrb/{it['id']}")
    rec = dict(id=it["id"], kind="ptrb", what=c["kind"].rstrip("23"), errors=[], calls=[], case=c)
    what = rec["what"]
    size = {"km": 1.0, "earth": 6378.0, "odd": 10**r.uniform(-2, 6)}[c["units"]]
    s = unit(r)*10**r.uniform(4, 8)/size
    kept = []
    def run(fn, *a):
        before = [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a]
        y = call(rec, what, fn, *a)
        kept.append(all(np.array_equal(p, q) for p, q in zip(before, a)))
        return [] if y is None else [fv(q) for q in np.asarray(y).reshape(-1, 3)]
    for _ in range(4):
        x = position(r, c["geom"], s)
        if what == "third":
            g = 10**r.uniform(-3, 9)
            rec["calls"].append(dict(r=fv(x), s=fv(s), gm=fs(g), out=run(pick("perturbation_third_body_battin"), x, s.copy(), g)))
        elif what == "j2":
            T = np.eye(3) if c["geom"] == "axis" else rotation(r)
            re, mu, j2 = np.linalg.norm(x)*r.choice([1.0, .9, .3, .01]), 10**r.uniform(-2, 6), 10**r.uniform(-5, -1)
            rec["calls"].append(dict(r=fv(x), pole=fv(T[2]), mu=fs(mu), j2=fs(j2), re=fs(re), out=run(pick("perturbation_J2"), x, T, mu, j2, re)))
        elif what == "srp":
            au, k = 10**r.uniform(-1, 8), 10**r.uniform(-12, -2)
            rec["calls"].append(dict(r=fv(x), au=fs(au), k=fs(k), out=run(pick("perturbation_SRP"), x, au, k)))
        elif what == "rtn":
            v = unit(r)*10**r.uniform(-3, 3)
            rec["calls"].append(dict(r=fv(x), vel=fv(v), out=run(pick("pxformECI2RTN"), x, v)))
    if what == "full":
        full(r, c, rec, run)
    rec["kept"] = all(kept)
    return rec


def full(r, c, rec, run):
    sp = kernels()
    obs, frame = c["obs"], c["frame"]
    LU, TU = {"km": (1.0, 1.0), "earth": (6378.0, 806.8), "odd": (10**r.uniform(2, 6), 10**r.uniform(1, 6))}[c["units"]]
    names = {"none": None, "empty": [], "moon": ["301"], "both": ["301", "10"], "swapped": ["10", "301"], "sun": ["10"], "other": ["10", "5", "301" if obs == "399" else "399"]}[c["bodies"]]
    muref = LU**3/TU**2
    kw = dict(obs_id=obs, frame_qlaw=frame, frame_PA="IAU_EARTH" if obs == "399" else "IAU_MARS", third_bodies_names=names, use_J2=c["J2"] == "on",
              use_SRP=c["SRP"] == "on")
    gms = None
    if c["gms"] == "given" and names:
        gms = [GM[n]*r.uniform(.5, 2)/muref for n in names]
        kw["third_bodies_gms"] = gms
    opt = {}
    for k, v in dict(J2=r.uniform(1e-4, 1e-2), Re_km=r.uniform(1e3, 7e4), P_SRP_SI=r.uniform(1e-6, 1e-5), Cr_SRP=r.uniform(1, 2), Am_SI=10**r.uniform(-3, 1)).items():
        if r.random() < .7:
            opt[k] = v
    kw.update(opt)
    et0 = r.uniform(-2e8, 2e8)
    mu = GM[obs]/muref
    p = call(rec, "construct", pyqlaw.SpicePerturbations, et0, LU, TU, **kw)
    if p is None:
        return
    full_opt = dict(J2=0.00108263, Re_km=6378.0, P_SRP_SI=4.56e-6, Cr_SRP=1.2, Am_SI=0.01); full_opt.update(opt)
    ids = names or []
    rec.update(LU=fs(LU), TU=fs(TU), et0=fs(et0), obs=obs, frame=frame, useJ2=kw["use_J2"], useSRP=kw["use_SRP"], given=gms is not None,
               bodies=[dict(id=n, p=fv(EPH.get(n, ([0]*3, 0))[0]), v=fv(EPH[n][1] if n in EPH else [0]*3), gm=fs(GM[n]), given=fs(gms[i]) if gms else "0")
                       for i, n in enumerate(ids)],
               sun=dict(p=fv(EPH["10"][0]), v=fv(EPH["10"][1])), center=dict(p=fv(EPH[obs][0] if obs in EPH else [0]*3), v=fv(EPH[obs][1] if obs in EPH else [0]*3)),
               gm=fs(GM[obs]), pole={k: fv(v) for k, v in POLE[obs].items()}, opt={k: fs(v) for k, v in full_opt.items()})
    day = 86400.0/TU
    pts = []
    for _ in range(3):
        k = [r.uniform(7e3, 4e5)/LU, r.uniform(.01, .8), r.uniform(.1, 2.8), r.uniform(0, 6.2), r.uniform(0, 6.2), r.uniform(-3, 6)]
        x = k if c["et"] == "keplerian" else as_mee(k, True)
        t = {"zero": 0.0, "pos": r.uniform(.1, 300)*day, "neg": -r.uniform(.1, 300)*day, "large": r.uniform(2000, 5000)*day}[c["t"]]
        pts.append((t, np.array(x)))
    pts.append(pts[0])
    for t, x in pts:
        rec["calls"].append(dict(t=fs(t), x=fv(x), et=c["et"], out=run(p.get_perturbations_RTN, t, x, c["et"])))
