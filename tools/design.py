#!/usr/bin/env python3
"""Rewrites the measured table and the planted-bug table in DESIGN.md from evidence/ and seeded/."""
import glob
import json
import os
import re

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]

rows = ["| check | cases judged | distinct | wall (s) |", "| --- | ---: | ---: | ---: |"]
for p in props:
    e = json.load(open(f"evidence/{p['id']}.json"))
    c = e["coverage"]
    rows.append(f"| {p['id']} {p['title']} | {c['evaluations']:,} | {c['distinct_nontrivial']:,} | {e['wall_s']:.0f} |")
measured = "\n".join(rows)

rows = ["| bug | property | what it breaks | what it needs |", "| --- | --- | --- | --- |"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
planted = "\n".join(rows)

s = open("DESIGN.md").read()
for mark, text in (("measured", measured), ("planted", planted)):
    s, n = re.subn(
        rf"(<!-- {mark} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + text + "\n" + m.group(2), s, flags=re.S
    )
    assert n == 1, mark
open("DESIGN.md", "w").write(s)
