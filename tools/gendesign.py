#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (between <!--NAME--> and <!--/NAME-->)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(here + "/tools/not_applicable.json"))
title = {p["id"]: p["title"] for p in map(json.loads, open(here + "/properties.jsonl"))}
T = {}
T["NA"] = "\n".join(f"* **{k} {title[k]}**: {v}." for k, v in na.items())
rows = ["| property | defect | commit |", "|---|---|---|"]
for l in open(here + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: rows.append(f"| {m[1]} | {m[3]} | {m[2]} |")
T["FIXES"] = "\n".join(rows)
n = k = 0
for f in glob.glob(here + "/tools/mut/*.mut"):
    for l in open(f):
        if l.startswith("=== "):
            n += 1; k += l.rstrip().endswith("| none")
T["MUTN"] = f"There are {n} edits, {k} of them behaviour preserving."
rows = ["| seed | breaks | needs |", "|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m['needs']} |")
T["SEEDS"] = "\n".join(rows)
p = here + "/DESIGN.md"
s = open(p).read()
for name, text in T.items():
    s = re.sub(rf"<!--{name}-->.*?<!--/{name}-->", lambda _: f"<!--{name}-->\n{text}\n<!--/{name}-->", s, flags=re.S)
open(p, "w").write(s)
