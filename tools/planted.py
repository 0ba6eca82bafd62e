"""Writes the list of planted changes by property into DESIGN.md (run after planting)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
lines = "".join(f"* {k}: {', '.join(v)}\n" for k, v in sorted(by.items()))
s = re.sub(r"(By property:\n\n)(\* C\d\d: .*\n)+", lambda m: m.group(1) + lines, s)
s = re.sub(r"`seeded/` holds \S+ changes", f"`seeded/` holds {sum(map(len, by.values()))} changes", s)
open(p, "w").write(s)
