import argparse
import importlib
import os
import sys

from . import core, cov, env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    ap.add_argument("--space", action="append")
    a = ap.parse_args()
    cov.start(env.REPO)
    env.bind()
    mod = importlib.import_module("checks." + a.prop.lower())
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_check(mod, os.environ["VERIF_TIER"], int(os.environ.get("VERIF_SEED", "1")), a.procs, a.space)


if __name__ == "__main__":
    rc = main()
    cov.dump("main")
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
