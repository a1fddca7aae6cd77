"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py"
PROPS = []
NOT_APPLICABLE = []


def prop(ident, title, statement, over, text, why, files, mechanism, note):
    """Add a claimed property."""
    PROPS.append((ident, title, statement, over, text, why, files, mechanism,
                  note))


exec((Path(__file__).parent / "props_data.py").read_text())


def main():
    """Write both files."""
    ids = [x[0] for x in PROPS]
    assert len(set(ids)) == len(ids)
    PROPS.sort()
    with (VERIF / "properties.jsonl").open("w") as out:
        for (ident, title, statement, over, text, why, files, mech,
             note) in PROPS:
            assert len(title) <= 80, title
            out.write(json.dumps({
                "id": ident,
                "title": title,
                "statement": " ".join(statement.split()),
                "quantifier": {"over": over, "text": " ".join(text.split())},
                "why_tests_cant": " ".join(why.split()),
                "anchors": {
                    "files": files,
                    "mechanism": [
                        {"name": n, "where": w} for n, w in mech
                    ],
                    "hook_needed": None,
                },
            }) + "\n")
    skip = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for (ident, *_rest, note) in PROPS:
        if ident in skip:
            continue
        checks.append({
            "property": ident,
            "quick_cmd": f"{PY} {ident} --tier quick",
            "thorough_cmd": f"{PY} {ident} --tier thorough",
            "evidence_file": f"evidence/{ident}.json",
            "technique": "TLA+ specification model-checked with TLC; TLC "
                         "state-graph scenarios replayed into the real code "
                         "and recorded traces validated by TLC",
            "level": "model_checking",
            "level_note": " ".join(note.split()),
        })
    (VERIF / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": f"{PY.replace('check.py', 'tools/setup.py')}",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "One TLA+ module per subsystem in spec/, one driver per "
                 "property in vp/drivers/. No hooks are needed in /repo.",
    }, indent=1) + "\n")


main()
