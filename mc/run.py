"""python -m mc.run <ID> <quick|thorough> [--suite NAME ...]"""
import argparse
import importlib
import os
import sys
import traceback


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--suite", nargs="*")
    a = p.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import env
    env.prepare()
    from . import core
    if os.environ.get("VERIF_COV"):
        from tools import cov
        core.COV_DUMP = cov.start(env.REPO)
    try:
        mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    except Exception:
        traceback.print_exc()
        # importing the harness imports the code under test: an import error
        # there is reported as what it is, a failure of the code.
        class M:
            PROPERTY = a.prop

            @staticmethod
            def suites(tier, err=traceback.format_exc()):
                raise RuntimeError("import failed: " + err.splitlines()[-1])
        mod = M
    rc = core.main(mod, a.tier, seed, only=a.suite)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
