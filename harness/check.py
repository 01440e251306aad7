"""check.py Cxx : run the check of one property (VERIF_TIER, VERIF_SEED)."""
import os, sys, tempfile, shutil

def fresh_sources():
    """Modules under /repo are always compiled from their source, never taken from cached bytecode."""
    import importlib._bootstrap_external as be
    orig = be.cache_from_source
    def cache_from_source(path, *a, **k):
        if str(path).startswith("/repo/"):
            raise NotImplementedError
        return orig(path, *a, **k)
    be.cache_from_source = cache_from_source

def main():
    prop = sys.argv[1]
    if os.environ.get("VF_CHILD") != "1":
        # re-exec with a controlled environment
        env = dict(os.environ, VF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   QT_QPA_PLATFORM="offscreen", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        os.execve(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv, env)
    fresh_sources()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import importlib, traceback, warnings, logging
    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)
    import vf
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vf.Check(prop, tier, seed)
    try:
        import gym_electric_motor
        assert gym_electric_motor.__file__.startswith("/repo/src/"), gym_electric_motor.__file__
        mod = importlib.import_module(prop.lower())
        mod.run(c)
        rc = c.finish()
    except Exception as x:
        traceback.print_exc()
        rc = 2
        last = traceback.extract_tb(x.__traceback__)[-1].filename
        if last.startswith("/repo/src/"):        # the code under test cannot even be loaded / set up
            c.report("unexpected exception: %s: %s" % (type(x).__name__, x), [], last)
            rc = c.finish()
    finally:
        c.cleanup()
    return rc

if __name__ == "__main__":
    sys.exit(main())
