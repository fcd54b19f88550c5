"""Run the check of one property.

usage: check.py <property id> [quick|thorough]        decide the property on /repo's working tree
       check.py --replay <file>                       run a reported case again

A check is a pipeline: TLC checks the specification of the property (mc), TLC generates behaviours and cases from the
specification (gen), the drivers run them on the real code (8 processes), TLC judges what was recorded against the
specification (judge).  Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed.
"""
import json, os, shutil, signal, sys, tempfile, time, traceback
from collections import Counter
import vt
from vt import Machinery, Tlc, VERIF
from plan import PLAN, JUDGES

SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = 8


def known():
    """known findings: lines  `finding: property=<id> kind=<kind> clause=<clause> <text>` suppress that clause of that kind of case"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split()[1:4])
                out.append((d["property"], d["kind"], d["clause"], " ".join(l.split()[4:])))
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.trans = 0
        self.cov = {}
        self.n = 0

    # -- specification ---------------------------------------------------------------
    def start_mc(self):
        runs = []
        for m in self.plan.get("mc", []):
            m = dict(m)
            if self.tier == "thorough":
                m["cfg"] = m.get("deep", m["cfg"])
            runs.append((m, Tlc(m["module"], self.work, "mc" + str(len(runs)), m["cfg"], workers=m.get("workers", 4),
                                timeout=800 if self.tier == "quick" else 7200, heap=m.get("heap", "4g"))))
        return runs

    def end_mc(self, runs):
        for m, t in runs:
            t.wait()
            self.states += t.distinct; self.trans += t.states
            self.cov.setdefault("model_checked", []).append(dict(spec=m["module"], part=m.get("part", ""), states=t.distinct, transitions=t.states))
            if t.violated:
                raise Machinery(f"the specification itself violates {t.violated} ({m['module']} {m.get('part', '')}): the spec is wrong")

    # -- generation --------------------------------------------------------------------
    def start_gen(self):
        gens = []
        for k, g in enumerate(self.plan.get("gen", [])):
            n = g["n"] if self.tier == "quick" else g.get("deep", g["n"]*12)
            focus = os.path.join(self.work, f"focus{k}.json")
            with open(focus, "w") as f:
                json.dump({a: list(b) for a, b in g.get("focus", {}).items()}, f)
            if g["kind"] == "loop":
                t = Tlc("LoopGen", self.work, f"gen{k}", f'CONSTANT Part = "{g["part"]}"\nSPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n',
                        simulate=n, depth=400, workers=1, heap="1g", seed=SEED*1000 + k)
            elif g["kind"] in ("session", "config"):
                t = Tlc(g["module"], self.work, f"gen{k}", g["cfg"], simulate=n if g.get("simulate", True) else None, depth=200, workers=1,
                        heap="1g", seed=SEED*1000 + k)
            else:
                t = Tlc("CaseGen", self.work, f"gen{k}", f'CONSTANT Family = "{g["family"]}"\nSPECIFICATION Spec\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n',
                        env={"FOCUS": focus}, simulate=n, depth=60, workers=1, heap="1g", seed=SEED*1000 + k)
            gens.append((g, t))
        return gens

    def end_gen(self, gens):
        items = []
        for k, (g, t) in enumerate(gens):
            t.wait()
            self.trans += t.states
            lines = [l.split(" ", 1)[1] for l in dict.fromkeys(t.lines) if l.startswith(("CASE ", "BEHAVIOUR ", "SESSION ", "CONFIG "))]
            if not lines:
                raise Machinery(f"nothing generated for {g}")
            for q, l in enumerate(lines):
                x = json.loads(l)
                it = {"id": len(items) + 1, "kind": g["kind"]}
                if g["kind"] == "loop":
                    it.update(b=x, et=["keplerian", "mee_with_a"][q % 2], integ=["rk4", "rkf45"][(q//2) % 2])
                else:
                    it["case"] = x
                items.append(it)
        return items

    # -- execution on the real code -------------------------------------------------------
    def drive(self, items):
        key = lambda it: (it["kind"] in ("loop", "run", "export", "plot", "session", "config"),
                          it.get("et") or it.get("case", {}).get("et", ""), it.get("integ") or it.get("case", {}).get("integ", ""), it["id"])
        items = sorted(items, key=key)
        heavy = [i for i in items if key(i)[0]]
        light = [i for i in items if not key(i)[0]]
        per = lambda l: [l[k*len(l)//NPROC:(k+1)*len(l)//NPROC] for k in range(NPROC)]
        shards = [a + b for a, b in zip(per(heavy), per(light))]
        limit = 700 if self.tier == "quick" else 10000
        procs = []
        for k, s in enumerate(shards):
            if s:
                procs.append([k, s, self.launch(k, 0, s)])
        recs = {}
        for k, s, p in procs:
            tries = 0
            while True:
                rc, timed = None, False
                try:
                    rc = vt.wait_python(p, limit)
                except Machinery:
                    timed = True
                path = os.path.join(self.work, f"out{k}.ndjson")
                begun = None
                for l in open(path) if os.path.exists(path) else []:
                    try:
                        r = json.loads(l)
                    except ValueError:
                        continue
                    if "begin" in r:
                        begun = r["begin"]
                    else:
                        recs[r["id"]] = r
                if rc == 0:
                    break
                left = [i for i in s if i["id"] not in recs and i["id"] != begun]
                bad = next((i for i in s if i["id"] == begun and begun not in recs), None)
                if bad is None or (rc is not None and rc > 0):
                    raise Machinery(f"driver failed (exit {rc}):\n" + vt.errtail(p))
                # the interpreter itself died or hung in this case
                recs[bad["id"]] = {"id": bad["id"], "kind": bad["kind"], "died": True, "endless": timed,
                                   "error": "no end" if timed else f"the interpreter was killed by signal {-rc}"}
                tries += 1
                if tries > 5 or not left:
                    break
                s = left
                p = self.launch(k, tries, left)
        return recs

    def launch(self, k, t, s):
        src = os.path.join(self.work, f"in{k}.{t}.json")
        with open(src, "w") as f:
            json.dump(s, f)
        return vt.python("drive.py", [src, os.path.join(self.work, f"out{k}.ndjson")], self.work, f"drv{k}.{t}")

    # -- judgement ---------------------------------------------------------------------------
    def judge(self, recs):
        """-> {(id): [[j, property, clause, text], ...]}"""
        bykind = {}
        for r in recs.values():
            bykind.setdefault(r["kind"], []).append(r)
        bad = {}
        runs = []
        for kind, rs in sorted(bykind.items()):
            dead = [r for r in rs if r.get("died")]
            for r in dead:
                bad.setdefault(r["id"], []).append([0, "C03" if r["endless"] else "C01", "endless" if r["endless"] else "crash", r["error"]])
            rs = [r for r in rs if not r.get("died")]
            if not rs:
                continue
            for module in JUDGES[kind]:
                if self.plan.get("judges") and module not in self.plan["judges"]:
                    continue
                path = os.path.join(self.work, f"{module}.{kind}.ndjson")
                vt.write_ndjson(path, rs)
                runs.append((module, kind, len(rs), Tlc(module, self.work, f"{module}.{kind}", "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n",
                             env={"TRACE": path}, workers=NPROC, timeout=800 if self.tier == "quick" else 7200)))
        seen = {}
        for module, kind, n, t in runs:
            t.wait()
            self.states += t.distinct or t.states; self.trans += t.states
            ids = set()
            nontriv = Counter()
            for l in t.lines:
                if not l.startswith("VERDICT "):
                    continue
                q = json.loads(l[8:])
                ids.add(q["id"])
                for w, x in (q.get("n") or {}).items():
                    nontriv[w] += int(x)
                if q["v"]:
                    bad.setdefault(q["id"], []).extend(q["v"])
            missing = n - len(ids)
            if missing and module != "StepTrace":
                raise Machinery(f"{module} gave no verdict on {missing} of {n} records\n" + t.text[-1500:])
            self.cov.setdefault("judged", []).append(dict(spec=module, kind=kind, records=n, states=t.distinct or t.states, exercised=dict(nontriv)))
        return bad

    # -- all of it ------------------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        vt.build()
        self.plan = PLAN[self.pid]
        mc = self.start_mc()
        items = self.end_gen(self.start_gen())
        recs = self.drive(items)
        bad = self.judge(recs)
        self.end_mc(mc)
        byid = {i["id"]: i for i in items}
        kf, mine = known(), []
        hit = set()
        for i, vs in sorted(bad.items()):
            vs = [v for v in vs if v[1] == self.pid or v[2] in ("crash", "endless")]
            rest = []
            for v in vs:
                m = next((x for x in kf if x[0] == self.pid and x[1] == byid[i]["kind"] and x[2] == v[2]), None)
                if m:
                    hit.add(m)
                else:
                    rest.append(v)
            if rest:
                mine.append((i, rest))
        for m in sorted(hit):
            print(f"KNOWN-FINDING: property={m[0]} {m[3]}")
        wall = time.time() - t0
        self.evidence(items, recs, mine, wall)
        if mine:
            d = os.path.join(VERIF, "out", self.pid)
            os.makedirs(d, exist_ok=True)
            for i, vs in mine[:5]:
                f = os.path.join(d, f"case{i}.json")
                with open(f, "w") as h:
                    json.dump(dict(property=self.pid, seed=SEED, item=byid[i], verdicts=vs, record=recs[i]), h, indent=1)
                print(f"VIOLATION property={self.pid} replay={f}")
                for v in vs[:4]:
                    print(f"  {byid[i]['kind']} case {i} at {v[0]}: [{v[1]}/{v[2]}] {v[3]}")
            print(f"{len(mine)} of {len(recs)} cases violate {self.pid}")
            return 1
        print(f"{self.pid}: {len(recs)} cases, {self.states} states, held ({wall:.0f} s)")
        return 0

    def evidence(self, items, recs, mine, wall):
        kinds = Counter(i["kind"] for i in items)
        first = {}
        for i in items:
            first.setdefault(i["kind"], i)
        cut = lambda o: json.loads(json.dumps(o)) if len(json.dumps(o)) < 3000 else json.dumps(o)[:3000]
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level="model_checking", wall_s=round(wall, 2), violations=len(mine),
                  coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=len(recs),
                                cases_by_kind=dict(kinds), samples=[cut(i) for i in first.values()], **self.cov),
                  assumptions=["decimal arithmetic of module Num (Java BigDecimal, 38 digits)", "what a record contains is what the solver's public "
                               "attributes, return values and plug-in calls showed"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def replay(path):
    d = json.load(open(path))
    os.environ["VERIF_SEED"] = str(d.get("seed", 1))
    c = Check(d["property"], "quick")
    try:
        vt.build()
        c.plan = PLAN[c.pid]
        recs = c.drive([d["item"]])
        bad = c.judge(recs)
        vs = [v for x in bad.values() for v in x]
        for v in vs:
            print(v)
        print("violated" if any(v[1] == c.pid or v[2] in ("crash", "endless") for v in vs) else "held")
        return 1 if vs else 0
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    os.environ.setdefault("VERIF_SEED", "1")
    c = Check(pid, tier)
    try:
        return c.run()
    except Machinery as ex:
        print("MACHINERY:", ex)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print(c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
