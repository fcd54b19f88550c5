"""What each check runs."""

INV = ("INVARIANTS TypeOK MassLaw BatteryBounds NoThrustWhenEmpty FullRecharge ThrustOnlyEnabled OnWindow OffWindow StepLength VerdictTrue "
       "Precedence NotPastTerminal Overshoot NanBudget\nPROPERTIES OffLongEnough OnLongEnough Terminates\nCHECK_DEADLOCK FALSE\n")


def mcloop(part):
    c = f'SPECIFICATION Spec\nCONSTANTS Part = "{part}"\nLean = %s\n' + INV
    return dict(module="MCLoop", part=part, cfg=c % "TRUE", deep=c % "FALSE", heap="8g")


LAWS = 'SPECIFICATION Spec\nCONSTANT Fine = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'


def laws(inv):
    return dict(module="OrbitLaws", part=inv, cfg=LAWS % ("FALSE", inv), deep=LAWS % ("TRUE", inv), workers=8)


NUMTEST = dict(module="NumTest", part="arithmetic", cfg="SPECIFICATION Spec\nINVARIANTS Ring Text Field Circle Growth Known Specials Vectors\nCHECK_DEADLOCK FALSE\n", workers=2)


def loop(part, n, deep=None):
    return dict(kind="loop", part=part, n=n, deep=deep or n*15)


def run(n, **focus):
    return dict(kind="run", family="run", n=n, focus=focus)


def fam(name, n, **focus):
    return dict(kind=name, family=name, n=n, focus=focus)


def session(n, deep=None):
    return dict(kind="session", module="SessionGen", cfg="CONSTANT Len0 = 16\nSPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n", n=n, deep=deep or n*12)


def config():
    return dict(kind="config", module="ConfigGen", cfg="SPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n", n=0, simulate=False)


BATT = ["drain", "cycle", "full", "start-empty", "overfull", "enough"]
FWD = ["fwd"]
RICH = dict(len=["many", "many2", "long"], woe=["ones", "default", "random", "zero-some"], target=["far", "far2", "five", "six"], end=["time", "time2", "mass", "relaxed"],
            orbit=["low-e", "mid-e", "high-e", "retro", "flat", "any", "any2", "multiturn", "tiny-e", "low-peri"], nans=["default"])
EFFS = ["abs", "rel", "both", "fun-abs", "fun-rel", "fun-both", "mixed", "tiny", "tiny-abs", "tiny-rel", "over", "fun-over"]
# one run of some ten thousand steps
HUGE = dict(run(1, len=["huge"], end=["time"], thrust=["weak"], eff=["none"], step=["fixed", "sundman"], ptrb=["none"], mu=["one"], batt=["none", "cycle"],
                before=["none"], et=["mee_with_a"], target=["far"], woe=["ones", "random"], par=["default", "random"], bounds=["default"], orbit=["low-e", "mid-e", "any"], nans=["default"], quiet=["v0"]), deep=4)
JUDGES = {"loop": ["LoopTrace"], "run": ["LoopTrace", "StepTrace"], "conv": ["ConvTrace"], "rates": ["RatesTrace"], "rk": ["RkTrace"],
          "law": ["LawTrace"], "ptrb": ["PtrbTrace"], "bounds": ["BoundsTrace"], "judge": ["JudgeTrace"],
          "session": ["SessionTrace"], "export": ["ExportTrace"], "config": ["ConfigTrace"], "plot": ["PlotTrace"], "helper": ["HelperTrace"]}

PLAN = {
    "C01": dict(mc=[mcloop("verdict")], judges=["LoopTrace"], gen=[loop("mixed", 32), loop("verdict", 24), run(72), run(16, target=["nan"], woe=["ones", "random"]), run(12, et=["mee_with_a"], orbit=["circular"]), run(24, duty=["none"], batt=["start-empty"], len=["one", "many"]), HUGE]),
    "C02": dict(mc=[mcloop("verdict")], judges=["LoopTrace"], gen=[loop("verdict", 192), loop("mixed", 38), run(64, end=["mass", "tol", "relaxed", "time"])]),
    "C03": dict(mc=[mcloop("verdict")], judges=["LoopTrace"], gen=[loop("verdict", 192), loop("mixed", 38), run(64, end=["mass", "tol", "relaxed", "time", "zero-time"]), run(20, end=["time"], step=["fixed", "fixed2"], batt=["none"]), HUGE]),
    "C04": dict(mc=[mcloop("battery")], judges=["LoopTrace"], gen=[loop("mixed", 64), loop("battery", 38), loop("cycle", 38), run(128)]),
    "C05": dict(mc=[mcloop("cycle")], judges=["LoopTrace"], gen=[loop("cycle", 144), loop("mixed", 38), loop("battery", 50), run(60, duty=["long", "short", "onlyoff"]), run(60, duty=["long", "short", "onlyoff"], batt=["cycle", "full", "start-empty"], len=["many", "long"], dir=FWD)]),
    "C06": dict(mc=[mcloop("battery")], judges=["LoopTrace"], gen=[loop("battery", 144), loop("mixed", 48), run(96, batt=BATT, dir=FWD),
                run(48, batt=["cycle", "enough", "full"], dir=FWD, duty=["long", "short", "onlyoff"], step=["sundman", "sundman2", "fixed"])]),
    "C07": dict(mc=[mcloop("battery")], judges=["LoopTrace"], gen=[loop("battery", 176), loop("mixed", 64), run(76, batt=BATT, dir=FWD)]),
    "C08": dict(mc=[NUMTEST, mcloop("cycle")], gen=[loop("cycle", 24), loop("mixed", 16),
                run(80, eff=EFFS, thrust=["mid", "strong"]), run(110, **{**RICH, "eff": EFFS}), run(16, eff=["none"]),
                run(30, et=["keplerian"], bounds=["tight", "beyond"], eff=["fun-abs", "fun-rel", "fun-both", "fun-over", "mixed"], thrust=["mid", "strong"])]),
    "C09": dict(mc=[mcloop("battery")], judges=["LoopTrace"], gen=[loop("battery", 40), loop("cycle", 16), run(64, step=["sundman", "sundman-big"]), run(40), run(24, step=["sundman"], et=["mee_with_a"], orbit=["extreme"])]),
    "C10": dict(mc=[NUMTEST, laws("DescentLaw MaxRateLaw")], gen=[run(120, len=["one", "many"]), run(60, len=["one"], par=["random", "odd"]), fam("law", 600)]),
    "C11": dict(mc=[NUMTEST, laws("RatesLaw RKLaw")], gen=[run(90), run(110, **RICH), run(50, ptrb=["fun"]), run(40, **{**RICH, "eff": ["over", "both"], "thrust": ["mid", "strong"]}), run(20, end=["dry"], thrust=["weak", "mid"])]),
    "C12": dict(mc=[NUMTEST, laws("SameOrbit Invariants AnomalyLaw")], gen=[fam("conv", 1600)]),
    "C13": dict(mc=[NUMTEST, laws("RatesLaw")], gen=[fam("rates", 1600)]),
    "C14": dict(mc=[NUMTEST, laws("RKLaw")], gen=[fam("rk", 1600)]),
    "C15": dict(mc=[NUMTEST], gen=[fam("ptrb", 600), fam("ptrb", 700, kind=["full"])]),
    "C16": dict(mc=[NUMTEST], gen=[fam("judge", 1600)]),
    "C17": dict(mc=[NUMTEST], gen=[fam("bounds", 600), run(100, et=["keplerian"], bounds=["tight", "beyond", "default"]), run(24, et=["mee_with_a"], bounds=["tight"])]),
    "C18": dict(gen=[session(200), fam("conv", 300), fam("rk", 300), fam("ptrb", 200)]),
    "C19": dict(mc=[NUMTEST], gen=[fam("export", 248), fam("export", 16, len=["very"], end=["time"], thrust=["weak", "mid"], ptrb=["none"])]),
    "C20": dict(mc=[mcloop("verdict")], gen=[loop("verdict", 176), loop("mixed", 64), run(64), run(38, et=["mee_with_a"], orbit=["circular"], ptrb=["none"]),
                run(38, et=["mee_with_a"], orbit=["circular"], ptrb=["none"], dir=FWD, batt=["start-empty", "cycle", "full"], duty=["none", "long", "short"]),
                run(24, target=["nan"], woe=["ones", "random"], dir=FWD, batt=["start-empty", "cycle", "none"])]),
    "C21": dict(gen=[config()]),
    "C22": dict(mc=[NUMTEST], gen=[fam("plot", 290), fam("plot", 12, len=["very"], end=["time"], thrust=["weak", "mid"], ptrb=["none"]), fam("helper", 400)]),
}

T_LOOP = "TLA+ state machine model-checked with TLC; generated behaviours replayed on the solver and recorded runs validated against it"
T_STEP = "TLA+ numeric specification; TLC judges every recorded step of generated runs against it"
T_CASE = "TLA+ specification of the interface; TLC generates cases and judges what the code returned"
N_LOOP = ("Exhaustive on the model within the configurations of MCLoop; on the code: replayed TLC behaviours with exact arithmetic (no tolerance) and "
          "generated realistic runs (ties of computed floats accepted both ways).")
N_STEP = ("Every recorded step of the generated runs recomputed in 38-digit arithmetic from the specification; tolerances 1e-8 relative. Bounded by the "
          "generated runs.")
N_CASE = "Every generated case recomputed in 38-digit arithmetic from the specification. Bounded by the generated cases."
NOTES = {}
for _i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C20"):
    NOTES[_i] = (T_LOOP, N_LOOP)
for _i in ("C08", "C10", "C11", "C17"):
    NOTES[_i] = (T_STEP, N_STEP)
for _i in ("C12", "C13", "C14", "C15", "C16", "C18", "C19", "C21", "C22"):
    NOTES[_i] = (T_CASE, N_CASE)