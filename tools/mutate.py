"""Mutation sweep: small changes of one source file of pyqlaw, one at a time, in a scratch copy; which ones do the checks miss?

usage: mutate.py FILE FIRST-LINE LAST-LINE CHECKS [EVERY [OFFSET]]      e.g.  mutate.py _qlaw.py 313 620 SOLVE,C18 1 0
CHECKS: property ids, or SOLVE for a combined check of all properties on solves.  Prints one line per mutant.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
BIN = {"+": "-", "-": "+", "*": "/", "/": "*", "**": "*"}


def mutants(src, lo, hi):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda ln, col: off[ln-1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body
            and isinstance(n.body[0], ast.Expr)}
    def rep(a, b, t):
        return (raw[:a] + t.encode() + raw[b:]).decode()
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or not lo <= n.lineno <= hi:
            continue
        a, b = span(n)
        text = raw[a:b].decode()
        def out(d, s):
            return (n.lineno, d, s)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            x, y = span(n.left)[1], span(n.comparators[0])[0]
            op = raw[x:y].decode()
            for k, v in sorted(CMP.items(), key=lambda q: -len(q[0])):
                if k in op:
                    yield out(f"{text} : {k} -> {v}", rep(x, y, op.replace(k, v, 1)))
                    break
        if isinstance(n, ast.BinOp):
            x, y = span(n.left)[1], span(n.right)[0]
            op = raw[x:y].decode()
            k = op.replace("(", "").replace(")", "").replace("\\", "").strip()
            if k in BIN:
                yield out(f"{text[:60]} : {k} -> {BIN[k]}", rep(x, y, op.replace(k, BIN[k], 1)))
        if isinstance(n, ast.BoolOp):
            x, y = span(n.values[0])[1], span(n.values[1])[0]
            op = raw[x:y].decode()
            v = op.replace("and", "or", 1) if "and" in op else op.replace("or", "and", 1)
            yield out(f"{text[:60]} : and/or", rep(x, y, v))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield out(f"{text[:40]} : sign dropped", rep(a, span(n.operand)[0], ""))
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if v is True or v is False:
                yield out(f"{v} -> {not v}", rep(a, b, str(not v)))
            elif isinstance(v, int):
                yield out(f"{v} -> {v+1}", rep(a, b, str(v + 1)))
                if v > 0:
                    yield out(f"{v} -> {v-1}", rep(a, b, str(v - 1)))
            elif isinstance(v, float):
                yield out(f"{v} -> {v*1.01 if v else 0.01}", rep(a, b, repr(v*1.01 if v else 0.01)))
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split(".")[-1] in ("abs", "array", "deepcopy", "copy", "float", "int", "round") and len(n.args) >= 1:
                yield out(f"{text[:50]} : call dropped", rep(a, b, "(" + ast.unparse(n.args[0]) + ")"))
            for p, q in (("cos", "sin"), ("sin", "cos"), ("max", "min"), ("min", "max")):
                if f.split(".")[-1] == p:
                    yield out(f"{text[:50]} : {p} -> {q}", rep(a, b, text.replace(p, q, 1)))
            if f.split(".")[-1] == "arctan2":
                yield out(f"{text[:50]} : arctan", rep(a, b, f"np.arctan(({ast.unparse(n.args[0])})/({ast.unparse(n.args[1])}))"))
            if len(n.args) >= 2:
                for j in range(len(n.args) - 1):
                    (p, q), (r, s) = span(n.args[j]), span(n.args[j+1])
                    if raw[p:q] != raw[r:s]:
                        yield out(f"{text[:50]} : arguments {j},{j+1} swapped", (raw[:p] + raw[r:s] + raw[q:r] + raw[p:q] + raw[s:]).decode())
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Assert)) and not (isinstance(n, ast.Expr) and id(n.value) in docs):
            yield out(f"{text[:60]} : removed", rep(a, b, "pass"))


def check(name, repo, verif):
    env = dict(os.environ, VERIF_REPO=repo)
    if name == "SOLVE":
        cmd = [sys.executable, "-B", os.path.join(verif, "tools", "mutate.py"), "--solve"]
    else:
        cmd = [os.path.join(verif, "check.sh"), name]
    r = subprocess.run(cmd, cwd=verif, env=env, capture_output=True, text=True)
    line = next((l.strip() for l in r.stdout.splitlines() if " at " in l and "[" in l), r.stdout[-200:].strip().replace("\n", " "))
    return r.returncode, line


def solve():
    import check as ck
    from plan import loop, run, RICH
    import vt
    c = ck.Check("ANY", "quick")
    c.plan = dict(gen=[loop("verdict", 48), loop("battery", 48), loop("cycle", 32), loop("mixed", 48), run(64), run(48, **RICH),
                       run(12, et=["mee_with_a"], orbit=["circular"], ptrb=["none"])])
    vt.build()
    try:
        recs = c.drive(c.end_gen(c.start_gen()))
        bad = c.judge(recs)
    except vt.Machinery as ex:
        print("MACHINERY", str(ex)[:300].replace("\n", " "))
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    tags = sorted({v[1] + "/" + v[2] for x in bad.values() for v in x})
    if bad:
        i, vs = sorted(bad.items())[0]
        print(f"{len(bad)} cases at [{' '.join(tags)}]")
    return 1 if bad else 0


def main():
    f, lo, hi, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    every = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    offset = int(sys.argv[6]) if len(sys.argv) > 6 else 0
    d = tempfile.mkdtemp(prefix="mut-")
    repo, verif = d + "/repo", d + "/verif"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.copytree(os.path.dirname(HERE), verif, ignore=shutil.ignore_patterns(".git", "seeded", "out"))
    path = os.path.join(repo, "pyqlaw", f)
    src = open(path).read()
    ms = sorted(set(mutants(src, lo, hi)))
    print(f"{len(ms)} mutants of {f}:{lo}-{hi}, every {every}", flush=True)
    ms = ms[offset::every]
    try:
        for k, (ln, desc, new) in enumerate(ms):
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            open(path, "w").write(new)
            res = "SURVIVED"
            info = ""
            for c in checks:
                rc, info = check(c, repo, verif)
                if rc:
                    res = f"killed {c}" if rc == 1 else f"NOANSWER {c}"
                    break
            print(f"{res} {f}:{ln} {desc!r} | {info[:150]}", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(solve() if sys.argv[1:] == ["--solve"] else main())
