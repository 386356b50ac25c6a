#!/usr/bin/env python3
"""writes DESIGN.md: static chapters from design.d/*.md, the per-property chapter from properties, registry, notes and the last evidence"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from checks import CHECKS
from notes import N
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
rd = lambda n: open(os.path.join(H, "design.d", n)).read().rstrip() + "\n"
MODE = {"asan": "ASan+UBSan (clang)", "gasan": "ASan+UBSan (gcc)", "tsan": "TSan", "tsand": "TSan with injected delays", "msan": "MSan", "fib": "controlled schedules", "fiba": "controlled schedules + ASan",
        "delay": "injected delays", "plain": "plain -O2", "clang2": "clang -O2"}
o = [rd("00-intro.md"), "\n## 4. Properties and how each is decided\n",
     "Quick sizes are cases per shard x shards per job; the thorough tier multiplies the cases by 10 to 100. Cost is the wall time of the last quick run on 8 cores.\n"]
for p in P:
    i = p["id"]; c = CHECKS[i]; d = {}
    try: d = json.load(open(f"{H}/evidence/{i}.json"))
    except Exception: pass
    o.append(f"\n### {i} {p['title']}\n")
    o.append(f"* **Decided by** {c['technique']}.")
    o.append(f"* **How**: {c['note'].replace('Exploration: ', '', 1)}")
    o.append("* **Workloads**: " + "; ".join(f"`{j['name']}` {j['cases']}x{j.get('shards', 4)}" + (f" {MODE.get(j['mode'], j['mode'])}" if not j.get("py") else " (driver script)") for j in c["jobs"]) + f". {c['rule'][0].upper()}{c['rule'][1:]}.")
    if c.get("floors"): o.append("* **Evidence floor** (fewer observed events is an error, not a pass): " + ", ".join(f"{k} >= {v}" for k, v in c["floors"].items()) + ".")
    if N.get(i): o.append("* **Domain and trust**: " + "; ".join(N[i]) + ".")
    o.append(f"* **Why tests cannot**: {p['why_tests_cant']}")
    o.append("")
o += [rd("50-rest.md")]
rows = ["| change | property | needs | breaks |", "| --- | --- | --- | --- |"]
for n in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{n}/meta.json")); rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = "\n".join(o).replace("SEEDTABLE", "\n".join(rows))
open(H + "/DESIGN.md", "w").write(t + ("" if t.endswith("\n") else "\n"))
print(len(t), "bytes")
