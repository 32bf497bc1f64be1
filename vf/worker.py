import importlib, os, shutil, sys, traceback, json
import vf.core as core


def main():
    pid = sys.argv[1]
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    work = f"/tmp/vf_{pid}_{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    ctx = core.Ctx(pid, tier, seed, work)
    rc = 2
    try:
        try:
            importlib.import_module(f"vf.checks.{pid.lower()}").run(ctx)
        except core.MachineryError:
            raise
        except Exception as e:  # the code under test raised, or answered with something of the wrong kind
            tb = traceback.extract_tb(e.__traceback__)
            if not isinstance(e, (MemoryError, OSError)) and (not isinstance(e, ImportError) or "neutralocean" in str(e)):
                ctx.fail(f"raises {type(e).__name__}", dict(error=str(e)[:800], tb=traceback.format_exc()[-1500:]))
            else:
                raise
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        print(f"{pid}: machinery error")
        rc = ctx.finish() if ctx.violations else 2    # what was already shown stands
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
