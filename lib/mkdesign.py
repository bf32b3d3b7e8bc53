#!/usr/bin/env python3
"""Assembles DESIGN.md from lib/design_head.md, lib/design_body.md and the list of planted bugs (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/lib/design_head.md").read().rstrip() + "\n\n" + open(V + "/lib/design_body.md").read().rstrip() + "\n\n"
t += """Each was written from the statement and the code, confirmed in a scratch copy (builds, passes the tests, the
demonstration fails with it and passes without), and is run against the quick check of its own property.

| planted bug | needs | caught by |
|---|---|---|
"""
notes = json.load(open(V + "/lib/seed_notes.json"))
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s)); t += "| %s | %s | %s |\n" % (s, m["needs"].replace("|", "\\|"), m["property"] + (" (" + notes[s] + ")" if s in notes else ""))
open(V + "/DESIGN.md", "w").write(t)
