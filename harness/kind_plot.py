"""Kind "plot": solve a problem of CaseGen, plot or report it one way, record what was drawn or printed."""
from regimes import *
import re
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from kind_export import solved, rows

NUM = re.compile(r"(?<![A-Za-z_])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


def axis(ax):
    o = dict(xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), lines=[], points=[], bands=[], limits=[])
    three = hasattr(ax, "get_zlim")
    for l in ax.get_lines():
        if three and hasattr(l, "get_data_3d"):
            x, y, z = l.get_data_3d()
        else:
            (x, y), z = l.get_data(orig=True), []
        o["lines"].append(dict(label=str(l.get_label()), x=fv(x), y=fv(y), z=fv(z)))
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            o["points"] += [fv([float(v) for v in q]) for q in zip(*c._offsets3d)]
        elif hasattr(c, "_segments3d"):
            o["bands"].append([fv(q) for s in c._segments3d for q in s])
        elif len(c.get_paths()) and type(c).__name__ in ("PolyCollection", "FillBetweenPolyCollection"):
            o["bands"].append([fv(q) for p in c.get_paths() for q in p.vertices])
        else:
            o["points"] += [fv(q) for q in c.get_offsets()]
    o["limits"] = [fv(ax.get_xlim()), fv(ax.get_ylim())] + ([fv(ax.get_zlim())] if three else [])
    return o


def figure(rec, fn, *a, **kw):
    try:
        y = call(rec, rec["what"], fn, *a, **kw)
        fig = y[0] if isinstance(y, tuple) and len(y) and hasattr(y[0], "axes") else (plt.gcf() if plt.get_fignums() else None)
        if fig is None:
            return
        rec["axes"] = [axis(x) for x in fig.axes]
    finally:
        plt.close("all")


def printed(rec, fn):
    try:
        with Quiet() as buf:
            fn()
        rec["text"] = table(buf.getvalue())
    except Exception as ex:
        rec["errors"].append([rec["what"], err_name(ex)])


def table(text):
    """each line: its text before the numbers, and its numbers"""
    out, ls = [], []
    for l in text.splitlines():
        if ls and ls[-1].count("[") > ls[-1].count("]"):      # an array continued on the next line
            ls[-1] += " " + l.strip()
        else:
            ls.append(l)
    for l in ls:
        if l.strip():
            head = re.split(r"[:|]", l, maxsplit=1)
            n = NUM.findall(head[1]) if len(head) > 1 else []
            out.append(dict(head=head[0].strip(), line=l.strip(), num=n))
    return out


def go(it):
    c = it["case"]
    p, rec, r = solved(c, it["id"])
    rec.update(kind="plot", id=it["id"], what=c["what"], axes=[], text=[], kept=True, cart=[])
    plain = c["units"] == "default"
    TU, BU = (1.0, 1.0) if plain else (r.choice([13.4, 0.01, 806.8]), r.choice([2.0, 1500.0]))
    rec["TU"], rec["BU"] = fs(TU), fs(BU)
    rec["names"] = {"keplerian": ["a", "e", "i", "raan", "omega", "ta"], "mee_with_a": ["a", "f", "g", "h", "k", "L"]}[rec["et"]]
    if p is None or len(p.times) < 1 or not all(math.isfinite(t) for t in p.times):
        rec["note"] = rec["note"] or "nothing to plot"
        return rec
    before = {}; snapshot(before, p)
    kw = {} if plain else dict(TU=TU, time_unit_name="d")
    w = c["what"]
    if w.startswith("elements"):
        if "kep" in w:
            kw["to_keplerian"] = True
        if "peri" in w:
            kw["plot_periapsis"] = True
        if "nomass" in w:
            kw["plot_mass"] = False
            if r.random() < .5:
                kw["to_keplerian"] = True
        rec["kep"], rec["peri"], rec["mass_shown"] = "to_keplerian" in kw, "peri" in w, "nomass" not in w
        figure(rec, p.plot_elements_history, **kw)
    elif w == "battery":
        if not plain:
            kw.update(BU=BU, battery_unit_name="Wh")
        figure(rec, p.plot_battery_history, **kw)
    elif w.startswith("controls"):
        if "noanomaly" in w:
            kw["show_anomaly"] = False
        figure(rec, p.plot_controls, **kw)
    elif w == "efficiency":
        figure(rec, p.plot_efficiency, **kw)
    elif w == "Q":
        figure(rec, p.plot_Q, **kw)
    elif w.startswith("traj"):
        interp = "interp" in w
        steps = r.choice([7, 30])
        kw = dict(interpolate=interp)
        if interp:
            kw["steps"] = steps
            if len(p.times) < 3:
                return rec
        if not all(np.all(np.isfinite(s)) for s in p.states):
            return rec
        h = call(rec, "get_cartesian_history", p.get_cartesian_history, interp, steps if interp else None)
        if h is not None:
            rec["cart"] = rows(np.asarray(h).T)
        rec["sphere"], rec["scale"] = "0", "1.02"
        if "3d" in w:
            kw["plot_sphere"] = "nosphere" not in w
            if kw["plot_sphere"]:
                rec["sphere"] = "0.35"
                if not plain:
                    kw.update(sphere_radius=0.2, scale=1.3)
                    rec["sphere"], rec["scale"] = "0.2", "1.3"
            figure(rec, p.plot_trajectory_3d, **kw)
        else:
            figure(rec, p.plot_trajectory_2d, **kw)
    elif w == "pretty":
        printed(rec, p.pretty)
    elif w == "results":
        printed(rec, p.pretty_results)
        rec["convtext"] = str(rec["conv"])
    elif w == "settings":
        printed(rec, p.pretty_settings)
    elif w == "progress":
        # the rows are split at the bars: [iteration, time, 5 differences, last element]
        rec["prows"] = [[q.strip() for q in l.split("|")][:8] for l in rec["printed"].splitlines() if l.count("|") >= 7 and l.split("|")[0].strip().isdigit()]
    after = {}; snapshot(after, p)
    rec["kept"] = before == after
    rec.pop("printed", None)
    return rec
