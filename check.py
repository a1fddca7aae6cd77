#!/opt/venv/bin/python
"""Run the check of one property: check.py <ID> [--tier quick|thorough]."""

import importlib
from pathlib import Path
import sys
import traceback

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, "/repo")


def main() -> int:
    """Entry."""
    from vp.core import Check, MachineryError

    prop = sys.argv[1]
    try:
        mod = importlib.import_module(f"vp.drivers.{prop.lower()}")
        check = Check(prop)
        mod.run(check)
        return check.finish()
    except MachineryError as exc:
        print(f"CHECK-ERROR {prop}: {exc}")
        return 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"CHECK-ERROR {prop}: unexpected exception")
        return 2


if __name__ == "__main__":
    sys.exit(main())
