#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json")); e = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append((m["property"], f"| {d} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {m.get('caught', 'caught by ' + m['property'])} |"))
t = "| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n" + "\n".join(r for _, r in sorted(rows))
p = here + "/DESIGN.md"; s = open(p).read()
open(p, "w").write(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: f"<!-- seeds -->\n{t}\n<!-- /seeds -->", s, flags=re.S))
