#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and
tools/seedresults.json (written by seedtest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
mark = "## Planted bugs"
s = s[:s.index(mark)] if mark in s else s.rstrip() + "\n\n"
res = json.load(open(os.path.join(V, "tools", "seedresults.json")))
s += mark + """

`seeded/<id>/`, each validated by `tools/seedtest.py`: applies, changes original lines, builds, keeps the
stable tests passing, demonstration passes without and fails with it. "caught by" lists the property's
own check and, where the whole suite was run on it, the others that report it too.

| bug | what it breaks | needs | caught by |
|---|---|---|---|
"""
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    c = lambda x: str(x).replace("|", "/").replace("\n", " ")
    s += "| %s | %s | %s | %s |\n" % (d, c(m["what_it_breaks"]), c(m["needs"]), " ".join(res.get(d, [])) or "(none)")
open(p, "w").write(s)
