"""Running TLC and the drivers. Standard library only."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
BUILD = os.path.join(VERIF, "build", "classes")


class Machinery(Exception):
    pass


def build():
    """compile the Java side of module Num (once)"""
    src = [os.path.join(SPEC, f) for f in ("Num.java", "BigVal.java")]
    cls = [os.path.join(BUILD, f) for f in ("Num.class", "BigVal.class")]
    if all(os.path.exists(c) for c in cls) and min(map(os.path.getmtime, cls)) >= max(map(os.path.getmtime, src)):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.dirname(BUILD))
    subprocess.run(["javac", "-cp", JARS, "-d", tmp] + src, check=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)


class Tlc:
    """one TLC run: .states .distinct .lines (printed by the specification) .violated .text"""
    def __init__(self, module, work, tag, cfg, env=None, simulate=None, workers=8, timeout=600, seed=1, depth=None, heap="6g"):
        self.module, self.tag = module, tag
        c = os.path.join(work, f"{tag}.cfg")
        with open(c, "w") as f:
            f.write(cfg)
        meta = os.path.join(work, f"{tag}.meta")
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", f"{BUILD}:{SPEC}:{JARS}", "tlc2.TLC",
               "-config", c, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 400), "-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        self.cmd, self.env, self.timeout = cmd, dict(os.environ, **(env or {})), timeout
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=self.env, cwd=work)

    def wait(self):
        try:
            self.text, _ = self.p.communicate(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            raise Machinery(f"TLC timed out on {self.module} ({self.tag})")
        t = self.text
        self.lines = [json.loads(l) for l in t.splitlines() if l.startswith('"') and l.rstrip().endswith('"')]
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", t)
        self.states, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"(?:number of states generated|states checked)[:=]? *(\d[\d,]*)|The number of states generated: (\d[\d,]*)", t)
        if not self.states and m:
            self.states = int((m.group(1) or m.group(2)).replace(",", ""))
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|Property) (\S+) (?:is|was) violated", t)
        if re.search(r"Temporal properties were violated", t):
            self.violated.append("liveness")
        ok = "Model checking completed. No error has been found" in t or (self.p.returncode == 0)
        if not ok and not self.violated:
            raise Machinery(f"TLC failed on {self.module} ({self.tag}):\n" + t[-3000:])
        return self


def python(script, args, work, tag, timeout=600, seed=None, tier=None):
    """start a driver on the real code"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(work, "mpl"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    err = open(os.path.join(work, f"{tag}.err"), "w")
    p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script)] + [str(a) for a in args], stdout=err, stderr=err, env=env, cwd=work)
    p.verif = (script, tag, timeout, err.name)
    return p


def wait_python(p, timeout):
    script, tag, _, err = p.verif
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Machinery(f"driver {script} ({tag}) timed out")
    return rc


def errtail(p, n=2000):
    with open(p.verif[3], errors="replace") as f:
        t = f.read()
    t = "\n".join(l[:300] for l in t.splitlines()[-40:])
    return t[-n:]


def split(items, n):
    """n nearly equal interleaved parts, none empty"""
    return [q for q in (items[i::n] for i in range(n)) if q]


def ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
