"""Makes /verif/seeded/<id>/ from tools/plantdefs.py and confirms it in a scratch copy:
   python3 plant.py make ID...     write patch.diff, demo.py, demo.sh, meta.json
   python3 plant.py confirm ID...  stable tests pass with the patch; demo passes without, fails with it
   python3 plant.py catch ID...    run the property's quick check (and any others: ID:C01,C02) on a patched copy
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(HERE, "tools"))


def copy(tag):
    d = tempfile.mkdtemp(prefix=f"plant_{tag}_", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    return d, r


def make(pid):
    import plantdefs
    D = plantdefs.D[pid]
    d, r = copy(pid)
    try:
        for f, old, new in D["edits"]:
            p = os.path.join(r, "neutralocean", f)
            s = open(p).read()
            assert s.count(old) == 1, (pid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(SEED, pid)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.py"), "w").write(D["demo"].lstrip())
    open(os.path.join(o, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" NUMBA_OPT=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=D["property"], needs=D["needs"], what_it_breaks=D["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)


def demo(pid, r):
    x = subprocess.run(["bash", os.path.join(SEED, pid, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
    return x.returncode, (x.stdout + x.stderr)[-300:]


def confirm(pid):
    d, r = copy(pid)
    try:
        a = demo(pid, r)
        subprocess.run(["git", "apply", os.path.join(SEED, pid, "patch.diff")], cwd=r, check=True)
        b = demo(pid, r)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=os.path.join(d, "nb"), PYTHONPATH=r)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-n", "2", "-p", "no:cacheprovider", f"--rootdir={r}", "neutralocean/tests"], cwd=r, env=env, capture_output=True, text=True)
        last = t.stdout.strip().splitlines()[-1]
        return pid, a[0] == 0 and b[0] != 0 and "27 passed" in last, a, b, last
    finally:
        shutil.rmtree(d)


def catch(arg):
    pid, _, props = arg.partition(":")
    props = props.split(",") if props else [json.load(open(os.path.join(SEED, pid, "meta.json")))["property"]]
    d, r = copy(pid)
    out = []
    try:
        subprocess.run(["git", "apply", os.path.join(SEED, pid, "patch.diff")], cwd=r, check=True)
        v = os.path.join(d, "verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", "evidence", ".git"))
        for p in props:
            x = subprocess.run(["python3", "check.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            out.append((p, x.returncode, [l for l in x.stdout.splitlines() if "violation(s)" in l or "did not" in l or "died" in l][:4] or (x.stdout + x.stderr)[-300:]))
    finally:
        shutil.rmtree(d)
    return pid, out


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(SEED)) if what != "make" else None
        if ids is None:
            import plantdefs
            ids = sorted(plantdefs.D)
    with cf.ThreadPoolExecutor(3) as ex:
        for res in ex.map(dict(make=make, confirm=confirm, catch=catch)[what], ids):
            if what == "confirm":
                pid, ok, a, b, last = res
                print(pid, "OK" if ok else f"BAD without={a} with={b}", last, flush=True)
            elif what == "catch":
                for p, rc, l in res[1]:
                    print(res[0], p, {0: "MISSED", 1: "caught"}.get(rc, f"ERROR {rc}"), l, flush=True)
