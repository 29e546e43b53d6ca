"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.

The stars (bugs that were missed when they were first tried) are kept; more
can be given as arguments.
"""

import json
import re
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[2]
path = ROOT / "DESIGN.md"
text = path.read_text()
start = text.index("## Planted bugs, and which checks catch them")
end = text.index("## Outside of the claimed domain")
section = text[start:end]
stars = set(re.findall(r"([\w-]+)\\\*", section)) | set(sys.argv[1:])
rows = {}
for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
    rows.setdefault(json.loads(meta.read_text())["property"], []).append(meta.parent.name)
total = sum(map(len, rows.values()))
section = re.sub(r"\d+ bugs are kept", f"{total} bugs are kept", section)
head, _, rest = section.partition("| property | planted bugs |\n")
after = re.sub(r"^(\|.*\n)+", "", rest)
table = "|---|---|\n" + "".join(
    f"| {k} | " + ", ".join(n + (r"\*" if n in stars else "") for n in rows[k]) + " |\n" for k in sorted(rows)
)
path.write_text(text[:start] + head + "| property | planted bugs |\n" + table + after + text[end:])
print(total)
