#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json and seeded/missed.txt (if any)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
head = "## Seeded bugs and which checks catch them\n"
text = open(path).read()
text = text[: text.index(head) + len(head)]
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    missed = m.get("missed")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {missed or m['property']} | {m['what_it_breaks'].strip().replace('|', '/')} |")
text += f"""
{len(rows)} bugs, each written from a property's text before looking whether a check detects it; the check of the property was run
on every one (quick tier, seed 1). Those first missed led to a stronger workload or monitor (`candles-of-first-interval`,
`dm-equal-moves`, `no-open-on-last-candle` …), and are caught since.

| bug | property | caught by | what it breaks |
|-----|----------|-----------|----------------|
"""
text += "\n".join(rows) + "\n"
open(path, "w").write(text)
