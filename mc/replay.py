"""Usage: replay.py FILE: run the case of a recorded violation on its own and judge it"""

import importlib
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import engine  # noqa: E402


def main():
    path = sys.argv[1]
    with open(path) as f:
        recorded = json.load(f)
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if recorded["property"] in ("C21",):
        from mc import faults

        faults.preload()
    module = importlib.import_module(f"mc.props.{recorded['property'].lower()}")
    space = next(s for s in module.spaces(recorded["tier"]) if s.name == recorded["space"])
    engine.SCRATCH = tempfile.mkdtemp(prefix="markflow-mc-")
    os.chmod(engine.SCRATCH, 0o755)
    try:
        r = engine.Recorder()
        engine.prepare()
        engine.run_case(space, recorded["case"], r)
    finally:
        shutil.rmtree(engine.SCRATCH, ignore_errors=True)
    for v in r.violations:
        print(f"VIOLATION property={recorded['property']} replay={path}")
        print(json.dumps(v, indent=1, default=repr))
    if not r.violations:
        print("the property holds for this case")
    return 1 if r.violations else 0


if __name__ == "__main__":
    sys.exit(main())
