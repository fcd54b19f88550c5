"""Write DESIGN.md from design.in.md, the plan and the results of the hunts (seeded_results.json)."""
import glob, json, os
from plan import PLAN
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TEXT = {
 "C01": ("loop machine: one entry per executed step", "LoopTrace: lengths of all histories, first entries, monotone times, replayed plan equal to the record; problems starting disabled"),
 "C02": ("`VerdictTrue`, `Precedence` over all environments", "LoopTrace: exit code and flag recomputed from the recorded final state, with tolerances and relaxed count; coincidences of causes replayed exactly"),
 "C03": ("`NotPastTerminal`, `Overshoot`, `Terminates`", "LoopTrace: the fold must reach its end exactly at the last recorded entry; endless runs detected by a budget of steps and time"),
 "C04": ("`MassLaw`", "LoopTrace: mass of every step = previous - mdot x dt x throttle (exact in replayed behaviours)"),
 "C05": ("`OnWindow OffWindow OffLongEnough OnLongEnough`, windows as seen by ghosts", "LoopTrace: the enabled signal (inferred from efficiencies, battery, throttle) must be one the machine allows, both directions"),
 "C06": ("`BatteryBounds`", "LoopTrace: battery of every step, clipped energy balance over the executed step"),
 "C07": ("`NoThrustWhenEmpty FullRecharge`", "LoopTrace: depletion, recharge hysteresis, shortening"),
 "C08": ("machine: coast iff below threshold", "StepTrace: best and worst rate recomputed around the osculating orbit; threshold functions' calls recorded and compared; decision recomputed"),
 "C09": ("`StepLength`", "LoopTrace: length of every step = configured, Kepler's equation increment, or up to the battery floor"),
 "C10": ("`DescentLaw MaxRateLaw`: no direction on a sphere grid does better; maximal rates bound rates around the orbit", "StepTrace and LawTrace: direction, value and rate recomputed by 38-digit differentiation"),
 "C11": ("`RatesLaw RKLaw`", "StepTrace: every step re-integrated from the recorded state and control, with recorded perturbation"),
 "C12": ("`SameOrbit Invariants AnomalyLaw`", "ConvTrace: generated orbits through chains of conversions; position, velocity, invariants, extractors, period, anomalies, sampled orbit"),
 "C13": ("`RatesLaw`", "RatesTrace: all six rates and sensitivity columns"),
 "C14": ("`RKLaw`: order conditions of both tableaux", "RkTrace: right-hand sides incl. explicitly time dependent, dimensions, signs, suggested step, zero difference"),
 "C15": ("physical models in `Perturb`", "PtrbTrace: each term alone, and the combined object at epoch and units"),
 "C16": ("`Converge`: per element, inclusive, wrapped", "JudgeTrace: generated states at, below and above tolerances, across turns, with zero weights"),
 "C17": ("clamp law", "BoundsTrace and StepTrace: bounds of user and default; every recorded state"),
 "C18": ("`Session`: operations on two objects", "SessionTrace: each solve equals the same problem on a fresh object bit for bit; user data hashed before and after"),
 "C19": ("`ExportTrace` definitions", "exported dictionary, file and Cartesian histories recomputed from the record"),
 "C20": ("`NanBudget`", "LoopTrace: scripted undefined steering; equinoctial circular orbits in realistic runs"),
 "C21": ("`Config`: table of options, domain and defaults; exhaustive", "ConfigTrace: refusals, defaults, effect"),
 "C22": ("`PlotTrace`, `HelperTrace`", "curves read back from the figure, printed text parsed, helpers recomputed"),
}
COST = {}
def main():
    rows = []
    for p in sorted(PLAN):
        g = PLAN[p]["gen"]
        n = ", ".join(f"{x['n'] or 'all'} {x['kind']}" for x in g)
        w = ""
        try:
            w = f"; {json.load(open(f'{ROOT}/evidence/{p}.json'))['wall_s']:.0f} s"
        except Exception:
            pass
        rows.append(f"| {p} | {TEXT[p][0]} | {TEXT[p][1]} | {n} |")
    try:
        res = json.load(open(f"{HERE}/seeded_results.json"))
    except FileNotFoundError:
        res = {}
    seed = ["| change | needs | quick check |", "|---|---|---|"]
    for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        m = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
        seed.append(f"| {k} | {m['needs']} | {res.get(k, 'not run')} |")
    s = open(f"{HERE}/design.in.md").read().replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDED@@", "\n".join(seed))
    open(f"{ROOT}/DESIGN.md", "w").write(s)
main()
