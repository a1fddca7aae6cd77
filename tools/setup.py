"""Check that the tools a check needs are there and the specs parse."""

from pathlib import Path
import subprocess
import sys

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from vp.core import JARS, SPEC  # noqa: E402


def main() -> int:
    """Parse every module once."""
    sys.path.insert(0, "/repo")
    import runtimepy

    assert Path(runtimepy.__file__).resolve().is_relative_to("/repo")
    mods = sorted(x.name for x in SPEC.glob("*.tla"))
    res = subprocess.run(
        ["java", "-cp", ":".join(JARS), "tla2sany.SANY", *mods],
        cwd=SPEC,
        capture_output=True,
        text=True,
        check=False,
    )
    if res.returncode != 0:
        print(res.stdout[-4000:], res.stderr[-2000:])
        return 1
    print(f"{len(mods)} modules parsed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
