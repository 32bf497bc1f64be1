"""Mutation campaign: python3 mutate.py SEED COUNT [FILE-SUBSTRING...]
Makes small semantic changes all over the package (in scratch copies under /tmp), runs the
checks that should notice, and lists the survivors (for triage by hand: equivalent, killed by
the repository's tests, outside every property, or missed)."""
import ast, concurrent.futures as cf, json, os, queue, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CHECKS = {
    "bfs.py": "C14 C05 C03 C04 C26", "fzero.py": "C12 C01 C09", "label.py": "C18 C21 C25", "lib.py": "C22 C15 C14 C02 C04",
    "mixed_layer.py": "C10 C15 C21 C25", "ntp.py": "C08 C07 C25", "stability.py": "C19 C15 C21", "traj.py": "C09 C03 C15 C23 C25 C26",
    "surface/isopycnal.py": "C02 C01 C08 C15 C03", "surface/omega.py": "C06 C07 C04 C05 C15 C03 C26",
    "surface/_vertsolve.py": "C01 C06 C04 C03 C26", "ppinterp/": "C11 C03", "grid/graph.py": "C14 C13 C08", "grid/": "C13 C14",
    "eos/": "C17", "synthocean.py": "C24",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*", ast.Mod: "+"}


SWAP = dict(min="max", max="min", minimum="maximum", maximum="minimum", ceil="floor", floor="ceil", any="all", all="any",
            nanmin="nanmax", nanmax="nanmin", argmin="argmax", argmax="argmin", zeros="ones", isnan="isfinite", isfinite="isnan",
            nansum="sum", nanmean="mean", sqrt="abs")


def files():
    for d, _, fs in os.walk(os.path.join(REPO, "neutralocean")):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "neutralocean"))
            if f.endswith(".py") and "tests" not in r and f != "__init__.py" and not r.startswith(("mlx", "examples")):
                for k in CHECKS:
                    if r.startswith(k):
                        yield r, CHECKS[k].split()
                        break


def mutants(path):
    src = open(path, encoding="utf8").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    out = []

    def rep(n, new, what):
        out.append((pos(n), pos(n, True), new, n.lineno, what))

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, f"{seg(n.left)} {o} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + o.join(f"({seg(v)})" for v in n.values) + ")", "bool")
            rep(n, "(" + seg(n.values[0]) + ")", "first")
            rep(n, "(" + seg(n.values[-1]) + ")", "last")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, seg(n.operand), "drop-unary")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            rep(n, f"(({seg(n.left)}) {OPS[type(n.op)]} ({seg(n.right)}))", "op")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            v = n.value
            rep(n, repr(v + 1), "const")
            if v not in (0, 1):
                rep(n, repr(v * 1.01 if isinstance(v, float) else v - 1), "const")
            elif v == 1:
                rep(n, repr(type(v)(0)), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(n, repr(not n.value), "flag")
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, "pass", "drop-jump")
        elif isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, "pass", "drop-stmt")
        elif isinstance(n, ast.Assign) and n.lineno == n.end_lineno and isinstance(n.targets[0], ast.Subscript):
            rep(n, "pass", "drop-assign")
        elif isinstance(n, ast.If):
            rep(n.test, f"({seg(n.test)}) and False", "never")
            rep(n.test, f"({seg(n.test)}) or True", "always")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.Name):
            a, c = n.args[:2]
            out.append((pos(a), pos(c, True), f"{c.id}, {a.id}", n.lineno, "swap-args"))
        elif isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                if isinstance(d, ast.Constant) and type(d.value) in (int, float):
                    rep(d, repr(d.value * 100 + (d.value == 0)), "default")
                elif isinstance(d, ast.Constant) and d.value in ("linear", "gsw"):
                    rep(d, repr({"linear": "pchip", "gsw": "jmd95"}[d.value]), "default")
                elif isinstance(d, ast.UnaryOp):
                    rep(d, "0", "default")
        if isinstance(n, ast.Name) and n.id in SWAP:
            rep(n, SWAP[n.id], "func")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            out.append((pos(n, True) - len(n.attr), pos(n, True), SWAP[n.attr], n.lineno, "func"))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) and n.value is not None:
            ns = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
            ids = sorted({x.id for x in ns} - {"np", "nb", "len", "range", "int", "float"})
            for x in ns:
                for y in ids:
                    if x.id in ids and y != x.id:
                        rep(x, y, "name")
    kinds = os.environ.get("KINDS")
    if kinds:
        out = [m for m in out if m[4] in kinds.split(",")]
    names = [m for m in out if m[4] == "name"]
    out = [m for m in out if m[4] != "name"] + random.Random(0).sample(names, min(len(names), 150))
    seen, res = set(), []
    for m in out:
        new = b[:m[0]] + m[2].encode() + b[m[1]:]
        try:
            t = ast.dump(ast.parse(new.decode()))
        except SyntaxError:
            continue
        if t in seen or new == b:
            continue
        seen.add(t)
        res.append((new.decode(), m[3], m[4], b[m[0]:m[1]].decode()[:60], m[2][:60]))
    return res


def main():
    seed, count, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    slots = int(os.environ.get("SLOTS", "3"))
    rng = random.Random(seed)
    pool = []
    for r, checks in files():
        if subs and not any(s in r for s in subs):
            continue
        ms = mutants(os.path.join(REPO, "neutralocean", r))
        pool += [(r, checks, m, 1.0 / len(ms) ** 0.5) for m in ms]
    print(len(pool), "mutants in all", flush=True)
    jobs = []
    w = [p[3] for p in pool]
    while pool and len(jobs) < count:
        i = rng.choices(range(len(pool)), w)[0]
        jobs.append(pool.pop(i)); w.pop(i)
    os.makedirs("/tmp/tlc_cache", exist_ok=True)
    base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    q = queue.Queue()
    for i in range(slots):
        v = os.path.join(base, f"verif{i}")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", "evidence", ".git"))
        r = os.path.join(base, f"repo{i}")
        os.makedirs(r)
        shutil.copytree(os.path.join(REPO, "neutralocean"), os.path.join(r, "neutralocean"), ignore=shutil.ignore_patterns("__pycache__"))
        q.put((v, r))

    def one(job):
        r, checks, (new, line, what, old, nw), _ = job
        v, repo = q.get()
        p = os.path.join(repo, "neutralocean", r)
        orig = open(p, encoding="utf8").read()
        res = []
        try:
            open(p, "w", encoding="utf8").write(new)
            for c in checks:
                x = subprocess.run(["python3", "check.py", c], cwd=v, env=dict(os.environ, VERIF_REPO=repo, VERIF_TLC_CACHE="/tmp/tlc_cache"), capture_output=True, text=True)
                res.append((c, x.returncode))
                if x.returncode == 1:
                    break
        finally:
            open(p, "w", encoding="utf8").write(orig)
            q.put((v, repo))
        return r, line, what, old, nw, res

    tot = dict(caught=0, survived=0)
    with cf.ThreadPoolExecutor(slots) as ex:
        for r, line, what, old, nw, res in ex.map(one, jobs):
            c = res[-1][1] == 1
            tot["caught" if c else "survived"] += 1
            print("caught  " if c else "SURVIVED", f"{r}:{line} [{what}] {old!r} -> {nw!r}", res if not c else res[-1][0], flush=True)
    print(tot)
    shutil.rmtree(base)


main()
