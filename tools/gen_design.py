#!/usr/bin/env python3
"""Append to DESIGN.md the parts that follow from other files: findings and planted bugs."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
t = open(here + "/DESIGN.md").read()
mark = "\n## Findings\n"
t = t.split(mark)[0].rstrip() + "\n"
k = json.load(open(here + "/known_findings.json"))["findings"]
o = [mark]
o.append("Genuine defects that checks met.  Open ones are recorded (not small or pinned by the repository's own tests), the\nothers repaired in `/repo`, one commit each.  `known_findings.json` is the machine-readable list.\n\nOpen:\n")
for f in k:
    if f["status"] == "open":
        o.append(f"* {f['property']}: {f['what']}")
o.append("\nRepaired:\n")
for f in k:
    if f["status"] == "fixed":
        o.append(f"* {f['property']} `{f['commit']}`: {f['what']}")
o.append("\n## Planted bugs\n")
o.append("Each was written from a property's text and the code, confirmed (builds, stable tests pass, demonstration fails with it\nand passes without), and kept whether caught or not.  `needs` is what it takes to show.  All are caught by the quick\ncheck of the property they name now; those marked * were missed at first (next section).\n")
missed = {"c01_longstr_nl", "c01_pool_numeral", "c02_bracketlevel", "c08_reversed", "c11_iffn", "c13_stop", "c14_hidden", "c15_println", "c15_empty", "c19_single"}
missed |= set(json.load(open(here + "/tools/missed.json"))) if os.path.exists(here + "/tools/missed.json") else set()
o.append("| bug | caught by | breaks | needs |\n|---|---|---|---|")
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    o.append(f"| {d}{' *' if d in missed else ''} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
tail = open(here + "/tools/design_tail.md").read()
open(here + "/DESIGN.md", "w").write(t + "\n".join(o) + "\n\n" + tail)
