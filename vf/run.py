import argparse
import importlib
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--case", help="run only this case, as name or name:index")
    p.add_argument("--procs", type=int)
    p.add_argument("--scale", type=float, default=1.0)
    a = p.parse_args()
    from vf import core
    try:
        module = importlib.import_module(f"vf.checks.{a.property.lower()}")
    except Exception as e:
        if core._in_repo(e.__traceback__):
            # the package itself cannot be imported or does not offer its documented names any more
            traceback.print_exc()
        print("INCONCLUSIVE: the check could not be loaded:", repr(e))
        return 2
    import aspsim.simulator
    if not Path(aspsim.simulator.__file__).resolve().is_relative_to(core.REPO_SRC):
        print("INCONCLUSIVE: aspsim was not imported from", core.REPO_SRC)
        return 2
    return core.run_check(a.property, module, a.tier, a.seed, a.case, a.procs, a.scale)


if __name__ == "__main__":
    sys.exit(main())
