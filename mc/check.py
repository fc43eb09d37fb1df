"""Usage: check.py PROPERTY [quick|thorough]"""

import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import engine  # noqa: E402


def main():
    started = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if prop in ("C21",):
        from mc import faults

        faults.preload()
    module = importlib.import_module(f"mc.props.{prop.lower()}")
    spaces = module.spaces(tier)
    only = os.environ.get("MC_SPACES")
    if only:
        spaces = [s for s in spaces if s.name in only.split(",")]
    total = engine.explore(spaces, prop)
    return engine.finish(
        prop,
        tier,
        module.LEVEL,
        total,
        spaces,
        started,
        assumptions=getattr(module, "ASSUMPTIONS", ()),
    )


if __name__ == "__main__":
    sys.exit(main())
