#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md, then a section per property from properties.jsonl, unit headers, tools/design_notes.py and seeded/"""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(H + "/tools/design_notes.py").read())
man = json.load(open(H + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds = {}
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"]))
o = [open(H + "/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
KIND = {"full": "proved for all inputs (no loop cut needed, or loops of constant length fully unwound)", "loopinv": "proved for all inputs and iterations (loop contracts)", "bounded": "BOUNDED, not counted as proved", "history": "random histories against a model (supplement, never counted as proved)"}
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    o += ["### %s %s" % (i, p["title"]), ""]
    if i in na:
        o += ["Not applicable / not claimed: " + na[i], ""]
        continue
    o += [NOTES.get(i, ""), ""]
    ass = []
    for f in sorted(glob.glob(H + "/units/%s/*.c" % i)):
        h = re.search(r"/\*VF\n(.*?)\*/", open(f).read(), re.S).group(1)
        k = dict((a.strip(), b.strip()) for a, b in (x.split(":", 1) for x in h.strip().splitlines() if ":" in x))
        o.append("- `%s` (%s): %s%s%s" % (os.path.basename(f)[:-2], KIND[k["kind"]], ", ".join("`%s`" % x for x in k.get("functions", "").split()),
                 "; bound: " + k["bounddoc"] if k.get("bounddoc") else "", "; case split over %d values" % len(k["cases"].split()) if k.get("cases") else ""))
        for a in k.get("assumes", "").split("|"):
            if a.strip() and a.strip() not in ass:
                ass.append(a.strip())
    if ass:
        o += ["", "Assumed, not checked here: " + "; ".join(ass) + "."]
    if i in seeds:
        o += ["", "Planted bugs: " + "; ".join("`%s` (needs %s) - %s" % (n, a.rstrip("."), CAUGHT.get(n, "caught")) for n, a, b in seeds[i]) + "."]
    o.append("")
open(H + "/DESIGN.md", "w").write("\n".join(o) + "\n")
