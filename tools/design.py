"""Write DESIGN.md (python3 tools/design.py)."""

import json
from pathlib import Path
import sys
import textwrap

sys.path.insert(0, str(Path(__file__).parent))
import design_data  # noqa: E402
import props  # noqa: E402

VERIF = Path(__file__).resolve().parent.parent


def wrap(text, first="", rest=""):
    """Wrap a paragraph."""
    return textwrap.fill(
        " ".join(text.split()), 79, initial_indent=first,
        subsequent_indent=rest, break_long_words=False,
        break_on_hyphens=False,
    )


def main():
    """Write it."""
    out = [(VERIF / "tools" / "design_head.md").read_text().rstrip(), ""]
    out += ["## The properties", ""]
    for (ident, title, statement, over, text, why, files, mech,
         note) in sorted(props.PROPS):
        out += [f"### {ident}: {title}", ""]
        out += [wrap(statement), ""]
        out += [wrap("Ranges over " + text, "* ", "  ")]
        out += [wrap("Specification: " + design_data.DETAILS[ident], "* ",
                     "  ")]
        out += [wrap("Bounds and assumptions: " + note, "* ", "  ")]
        out += [wrap("Beyond tests: " + why, "* ", "  ")]
        out += [wrap("Code: " + ", ".join(f"`{x}`" for x in files), "* ",
                     "  "), ""]
    if props.NOT_APPLICABLE:
        out += ["### Not applicable", ""]
        for item in props.NOT_APPLICABLE:
            out += [wrap(f"{item['property']}: {item['reason']}", "* ", "  ")]
        out += [""]
    found = json.loads((VERIF / "known_findings.json").read_text())
    out += ["## Findings", "",
            "Genuine defects that are recorded, not repaired "
            "(`known_findings.json`):", ""]
    out += [wrap(f"{x['property']}: {x['what']}", "* ", "  ")
            for x in found if x["status"] == "known"]
    out += ["", "Genuine defects that were repaired, each one with a commit "
            "in `/repo` (`fix: ...`);", "the checks report them if they "
            "return:", ""]
    out += [wrap(f"{x['property']} `{x['commit']}`: {x['what']}", "* ", "  ")
            for x in found if x["status"] == "fixed"]
    out += ["", "## Planted bugs", "",
            "`tools/seed.sh ID [CHECK...]` tries one in a copy: that it "
            "applies, passes the", "stable tests, that its demonstration "
            "tells the trees apart, and what the check", "says. All of these "
            "are caught by the check of the property they were written", "for, "
            "unless it says otherwise.", ""]
    for path in sorted((VERIF / "seeded").glob("*/meta.json")):
        meta = json.loads(path.read_text())
        out += [wrap(f"`{path.parent.name}` ({meta['property']}): needs "
                     f"{meta['needs']}; {meta['what_it_breaks']}"
                     + (f" [{design_data.SEEDS[path.parent.name]}]"
                        if path.parent.name in design_data.SEEDS else ""),
                     "* ", "  ")]
    out += ["", design_data.TAIL.rstrip()]
    (VERIF / "DESIGN.md").write_text("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
