#!/usr/bin/env python3
"""Development aid: rewrites the table of properties in DESIGN.md from the rules."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(ROOT + "/properties.jsonl")}
rows = []
for f in sorted(glob.glob(ROOT + "/rules/c[0-9]*.py")):
    c = os.path.basename(f)[:-3].upper()
    if c not in titles:
        continue
    rules = []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule":
            rules.append("*%s*: %s" % (n.args[0].value, n.args[1].value.strip()))
    rows.append("| %s | %s | %s |" % (c, titles[c], "; ".join(rules)))
s = open(ROOT + "/DESIGN.md").read()
t = "| id | property | what is decided |\n|----|----|----|\n" + "\n".join(rows) + "\n"
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda m: "<!-- table -->\n" + t + "<!-- end -->", s, flags=re.S)
seeds = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"], m["property"]))
s = re.sub(r"<!-- seeds -->.*<!-- endseeds -->", lambda m: "<!-- seeds -->\n| planted change | needs | caught by |\n|----|----|----|\n" + "\n".join(seeds) + "\n<!-- endseeds -->", s, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(s)
