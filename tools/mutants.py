#!/usr/bin/env python3
"""Small random changes to the package, each run against the checks that encode the changed function.

usage: mutants.py SEED COUNT OUT [FUNCTION-SUBSTRING]     development tool: no registered command uses it.
Prints, per change, the first check that reports a violation, or SURVIVED with the checks tried."""
import ast, json, os, pathlib, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf

ROOT = pathlib.Path(__file__).resolve().parent.parent
PKG = pathlib.Path("/repo/micropolarray")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
SKIP = ("show", "print", "timer", "_plot", "main")


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    mod = "micropolarray." + ".".join(path.relative_to(PKG).with_suffix("").parts)
    out = []

    def expr(n, qual):
        if isinstance(n, (ast.JoinedStr,)): return
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "info", "warning", "debug", "error"): return
        if isinstance(n, ast.Raise): return
        s, e = pos(n) if hasattr(n, "lineno") else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = pos(n.left)[1], pos(n.comparators[0])[0]
            mid = b[l:r].decode()
            op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(n.ops[0])]
            if mid.count(op) == 1: out.append((qual, n.lineno, l, r, mid.replace(op, CMP[type(n.ops[0])])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = pos(n.left)[1], pos(n.right)[0]
            mid = b[l:r].decode()
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}[type(n.op)]
            if mid.count(op) == 1: out.append((qual, n.lineno, l, r, mid.replace(op, BIN[type(n.op)])))
        elif isinstance(n, ast.BoolOp):
            l, r = pos(n.values[0])[1], pos(n.values[1])[0]
            mid = b[l:r].decode()
            a, c = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(a) == 1: out.append((qual, n.lineno, l, r, mid.replace(a, c)))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): out.append((qual, n.lineno, s, e, str(not n.value)))
            elif isinstance(n.value, int): out.append((qual, n.lineno, s, e, str(n.value + 1)))
            elif isinstance(n.value, float): out.append((qual, n.lineno, s, e, repr(n.value * 1.25 + 0.01)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): out.append((qual, n.lineno, s, e, "(" + b[slice(*pos(n.operand))].decode() + ")"))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            p, q = n.elts
            out.append((qual, n.lineno, pos(p)[0], pos(q)[1], b[slice(*pos(q))].decode() + b[pos(p)[1]:pos(q)[0]].decode() + b[slice(*pos(p))].decode()))

    def walk(n, qual):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            qual = qual + [n.name]
            if any(n.name.startswith(k) for k in SKIP): return
        if isinstance(n, ast.If) and getattr(n.test, "id", "") in ("DEBUG", "show", "show_hist"): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Raise): return
        if qual:
            q = mod + ":" + ".".join(qual)
            expr(n, q)
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") not in ("print", "info", "warning", "debug", "error")):
                s, e = pos(n)
                out.append((q, n.lineno, s, e, "pass"))
        body_done = False
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for c in v:
                    if not isinstance(c, ast.AST): continue
                    walk(c, qual)
                    if f in ("body", "orelse") and isinstance(c, (ast.Return, ast.Raise)): break   # dead code
            elif isinstance(v, ast.AST):
                if isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("print", "info", "warning", "debug", "error"): continue
                if isinstance(v, ast.JoinedStr) or (f in ("annotation", "returns")): continue
                walk(v, qual)
    walk(tree, [])
    return src, b, out


def checks_for(q):
    r = []
    for p in sorted((ROOT / "evidence").glob("C*.json")):
        e = json.loads(p.read_text())
        f = e["coverage"]["functions_encoded"]
        if q in f or any(x.startswith(q + ".") for x in f): r.append((len(f), e["wall_s"], e["property"]))
    return [c for _, _, c in sorted(r)]


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    rng = random.Random(seed)
    byfn = {}
    for p in sorted(PKG.rglob("*.py")):
        if "__pycache__" in str(p): continue
        for m in mutants(p)[2]:
            if sub in m[0]: byfn.setdefault(m[0], []).append((p, m))
    pick = []
    fns = sorted(byfn)
    while len(pick) < count and any(byfn.values()):
        f = rng.choice([f for f in fns if byfn[f]])
        pick.append(byfn[f].pop(rng.randrange(len(byfn[f]))))
    base = pathlib.Path(tempfile.mkdtemp(prefix="mut."))

    def one(k):
        p, (q, line, s, e, new) = pick[k]
        cs = checks_for(q)
        d = base / str(k)
        shutil.copytree(PKG, d / "micropolarray", ignore=shutil.ignore_patterns("__pycache__"))
        t = d / "micropolarray" / p.relative_to(PKG)
        b = p.read_bytes()
        head = f"{p.name}:{line} {q.split(':')[1]}: {b[s:e].decode().strip()[:50]!r} -> {new.strip()[:50]!r}"
        t.write_bytes(b[:s] + new.encode() + b[e:])
        try: ast.parse(t.read_text())
        except SyntaxError:
            shutil.rmtree(d)
            return None
        res = []
        env = dict(os.environ, VERIF_REPO=str(d), PYTHONDONTWRITEBYTECODE="1")
        got = "NOT ENCODED" if not cs else "SURVIVED"
        for c in cs:
            try: rc = subprocess.run(["./run", c], cwd=ROOT, capture_output=True, text=True, env=env, timeout=900).returncode
            except subprocess.TimeoutExpired: rc = "t"
            res.append(f"{c}={rc}")
            if rc == 1:
                got = "caught"
                break
            if len(res) >= 9: break
        shutil.rmtree(d)
        return f"{got} {head} [{' '.join(res)}]"
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex, open(out, "a") as o:
        for r in ex.map(one, range(len(pick))):
            if r: print(r, file=o, flush=True)
    shutil.rmtree(base)


if __name__ == "__main__": main()
