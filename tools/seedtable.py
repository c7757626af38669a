#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
mark = "### Table of planted bugs\n"
t = t.split(mark)[0].rstrip("\n") + "\n\n" + mark + "\nEach is caught by the check of its property (`tools/seedtest.sh ID` shows it: demo on both trees, then the check).\n\n| id | check | breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open(V + "/DESIGN.md", "w").write(t)
