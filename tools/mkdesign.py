"""DESIGN.md from tools/DESIGN.in.md, the evidence of the last runs and the planted bugs."""
import glob
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(root + "/tools/DESIGN.in.md").read()
sys_path = __import__("sys").path
sys_path.insert(0, root)
import checks
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
rows = []
nums = json.load(open(root + "/tools/obligations.json")) if os.path.exists(root + "/tools/obligations.json") else {}
for p in props:
    c = checks.CHECKS[p["id"]]
    n = nums.get(p["id"], {})
    how = "contracts (every input)" if c["level"] == "proof" else c.get("how", "runtime oracle on generated inputs (exploration)")
    rows.append("| %s | %s | %s | %s |" % (p["id"], how, n.get("n", "–"), n.get("s", "–")))
t = t.replace("@@TABLE@@", "\n".join(rows))
seeds = ["| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
t = t.replace("@@SEEDS@@", "\n".join(seeds))
t = t.replace("@@CSECTION@@", open(root + "/tools/DESIGN.c.md").read().strip())
open(root + "/DESIGN.md", "w").write(t)
