#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py <PROPERTY> [--tier quick|thorough]

Runs the worker (vf.worker, under the interpreter that has the package's
dependencies) in a process group of its own, so that a change to the code under
test that hangs or kills the interpreter is still answered with a verdict.
"""
import json, os, signal, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 480 if tier == "quick" else 3 * 3600
    env = dict(os.environ)
    env.update(
        VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONPATH=f"{REPO}:{HERE}",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1",
        NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
    )
    if tier == "quick" and pid not in ("C11", "C14"):
        env["NUMBA_OPT"] = "0"   # compile time dominates; no change of semantics
    for k in ("NUMBA_DISABLE_JIT", "PYTHONHOME"):
        env.pop(k, None)
    ev = os.path.join(HERE, "evidence", f"{pid}.json")
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    t0 = time.time()
    p = subprocess.Popen([PY, "-m", "vf.worker", pid], cwd=HERE, env=env, start_new_session=True)
    why = None
    try:
        rc = p.wait(timeout=limit)
        if rc < 0:
            why = f"the interpreter running the code under test died with signal {-rc}"
    except subprocess.TimeoutExpired:
        why = f"the code under test did not finish within {limit} s"
        rc = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        shutil.rmtree(f"/tmp/vf_{pid}_{p.pid}", ignore_errors=True)
    if why:
        rp = os.path.join(HERE, "evidence", "replay", f"{pid}-run.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, clause="terminates", detail=why), f)
        with open(ev, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking",
                coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[why]),
                wall_s=round(time.time() - t0, 2), violations=1), f)
        print(f"{pid}: {why}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(rc)


if __name__ == "__main__":
    main()
