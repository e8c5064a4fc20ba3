#!/usr/bin/env python3
"""Fills the two generated tables of DESIGN.md in (between markers)."""
import glob, importlib.util, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("m", os.path.join(H, "tools/mkmanifest.py")); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
fixed = "<!-- fixed -->\n" + "\n".join(f"* **{a}** `{c}` {t}" for a, c, t in m.FIXED) + "\n<!-- /fixed -->"
rows = []
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {j['property']} | {j.get('caught_by', j['property'])} | {j['what_it_breaks']} | {j['needs']} |")
seeds = "<!-- seeds -->\n| id | property | caught by | breaks | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
for tag, new in (("fixed", fixed), ("seeds", seeds)):
    if f"<!-- {tag} -->" in s: s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: new, s, flags=re.S)
    else: s = s.replace(f"@@{tag.upper()}@@", new)
open(p, "w").write(s)
