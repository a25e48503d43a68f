"""fills the tables of DESIGN.md"""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.join(H, "..")
s = open(H + "/DESIGN.in.md").read()
k = json.load(open(R + "/known-findings.json"))
m = json.load(open(R + "/MANIFEST.json"))
s = s.replace("@FIXED@", "\n".join("* " + x for x in k["fixed"]))
s = s.replace("@NA@", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in m["not_applicable"]))
t = ["| change | property | needs | caught by |", "| --- | --- | --- | --- |"]
miss = json.load(open(H + "/missed.json")) if os.path.exists(H + "/missed.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(d)); i = d.split("/")[-2]
    t.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "/"), miss.get(i, j["property"])))
s = s.replace("@SEEDS@", "\n".join(t)).replace("@MORE@\n\n", "")
open(R + "/DESIGN.md", "w").write(s)
