"""Kind "helper": spheres, ellipsoids, wrapping, equal axes."""
from regimes import *
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from kind_plot import axis


def go(it):
    c = it["case"]
    r = rng(f"helper/{it['id']}")
    rec = dict(id=it["id"], kind="helper", what=c["what"], errors=[], case=c, pts=[], center=["0", "0", "0"], radii=[], n=0, shape=[], angles=[],
               lims=[], scale="1", limits=[], array=[])
    w = c["what"]
    s = {"small": 10**r.uniform(-4, -1), "one": r.uniform(.5, 2), "large": 10**r.uniform(2, 6)}[c["size"]]
    kw = {}
    if c["center"] == "given":
        ce = [r.uniform(-3, 3)*s*r.choice([1, 10]) for _ in range(3)]
        kw["center"] = ce if r.random() < .5 else np.array(ce)
        rec["center"] = fv(ce)
    radii = [s]*3
    if "ellipsoid" in w:
        radii = [s, s*r.uniform(.2, 3), s*r.uniform(.2, 3)]
        if c["n"] != 60:
            kw["n"] = c["n"]
        rec["n"] = c["n"]
    rec["radii"] = fv(radii)
    if w in ("sphere", "ellipsoid"):
        a = [s] if w == "sphere" else radii
        y = call(rec, w, pick("get_" + w + "_coordinates"), *a, **kw)
        if y is not None:
            try:
                x, y, z = [np.asarray(q, dtype=float) for q in y]
                rec["shape"] = list(x.shape)
                rec["pts"] = [fv(q) for q in zip(x.ravel(), y.ravel(), z.ravel())][:800]
                if x.size > 800:
                    j = sorted(r.sample(range(x.size), 800))
                    rec["pts"] = [fv(q) for q in np.stack((x.ravel(), y.ravel(), z.ravel())).T[j]]
                    rec["ext"] = [[fs(q.min()), fs(q.max())] for q in (x, y, z)]
                rec["ext"] = [[fs(q.min()), fs(q.max())] for q in (x, y, z)]
            except Exception as ex:
                rec["errors"].append([w, err_name(ex)])
    elif w.startswith("wire"):
        fig = plt.figure()
        ax = fig.add_subplot(projection="3d")
        name = w[5:]
        a = [s] if name == "sphere" else radii
        call(rec, w, pick("plot_" + name + "_wireframe"), ax, *a, **kw)
        b = axis(ax)["bands"]
        pts = b[0] if b else []
        rec["pts"] = pts if len(pts) <= 800 else [pts[j] for j in sorted(r.sample(range(len(pts)), 800))]
        if pts:
            v = np.array([[float(q) for q in p] for p in pts])
            rec["ext"] = [[fs(v[:, k].min()), fs(v[:, k].max())] for k in range(3)]
        plt.close("all")
    elif w == "wrap":
        xs = [0.0, math.pi, -math.pi, 3*math.pi, r.uniform(-3, 3), r.uniform(-50, 50), r.uniform(-1e4, 1e4), r.choice([-1, 1])*2*math.pi*r.randint(1, 40), r.uniform(-7, -3), r.uniform(3, 7)]
        f = pick("wrap")
        for x in xs:
            y = call(rec, w, f, x)
            if y is not None:
                rec["angles"].append([fs(x), fs(y)])
        y = call(rec, w, f, np.array(xs))
        if y is not None:
            rec["angles"] += [[fs(a), fs(b)] for a, b in zip(xs, np.asarray(y).ravel())]
    else:
        fig = plt.figure()
        three = w == "axis3"
        ax = fig.add_subplot(projection="3d") if three else fig.add_subplot()
        lims = []
        for k in range(3):
            m = r.uniform(-3, 3)*s - (10*s if c["range"] == "negative" else 0)
            h = r.uniform(.1, 2)*s
            lims.append([m - h, m + h])
        if c["range"] == "flat":
            k = r.randrange(2); lims[k] = [lims[k][0]]*2
        if r.random() < .2:
            lims[0] = lims[0][::-1]
        if not three:
            lims[2] = [0.0, 0.0] if r.random() < .5 else lims[2]
        kw = {} if three else dict(dim3=False)
        sc = r.choice([1.0, 1.02, 1.7])
        if sc != 1.0:
            kw["scale"] = sc
        rec["scale"] = fs(sc)
        rec["lims"] = [fv(q) for q in lims]
        call(rec, w, pick("set_equal_axis"), ax, *lims, **kw)
        rec["limits"] = axis(ax)["limits"]
        plt.close("all")
    return rec
