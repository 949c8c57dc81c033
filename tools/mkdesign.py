#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the table of properties, the evidence of the last runs, seeded/ and tools/design_tail.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
title = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); title[d["id"]] = d["title"]
out = [open(T + "design_head.md").read().replace("@N@", str(len(title))), "\n## 2. Per property\n\n"]
for l in open(T + "design_props.md"):
    l = l.rstrip("\n")
    if not l: continue
    i, oracle, gen, lim = l.split("|")
    src = open(V + "/harness/%s.cpp" % i).read()
    wl = [(m[1], m[2], m[3]) for m in re.finditer(r"^VH_WORKLOAD\((\w+),\s*(\d+),\s*(\d+)\)", src, re.M)]
    cfg = re.search(r"VH-CONFIG:\s*variants=(.*)", src)
    out.append("**%s — %s.**\n*Oracle:* %s. *Generated:* %s. *Sanitizers:* %s. *Cases (quick/thorough):* %s.%s\n\n" % (
        i, title[i], oracle, gen, (cfg[1] if cfg else "asan (with ubsan)").strip(), ", ".join("%s %s/%s" % w for w in wl),
        "" if lim == "—" else " *Limit:* " + lim + "."))
out.append(open(T + "design_tail.md").read())
out.append("\n## 7. Planted bugs\n\nEach was written from the property's text and the code, confirmed in a scratch copy (builds, 711 tests pass, demonstration fails with it and passes without).\n\n| change | property | needs | check |\n|---|---|---|---|\n")
res = json.load(open(V + "/tools/planted_results.json")) if os.path.exists(V + "/tools/planted_results.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], str(m["needs"]).replace("|", "/").replace("\n", " "), res.get(i, "?")))
open(V + "/DESIGN.md", "w").write("".join(out))
