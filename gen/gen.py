#!/usr/bin/env python3
"""Writes ../properties.jsonl, ../MANIFEST.json and ../DESIGN.md from props.py, design_head.md and ../checks.py."""
import sys, json, os
import re
def three(s):
    "at most three sentences, as the schema asks"
    q = re.split(r"(?<=\.)\s+(?=[A-Z])", s)
    return s if len(q) <= 3 else " ".join(q[:2]) + " " + "; ".join(x.rstrip(".") for x in q[2:]) + "."
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path[:0] = [D, V]
sys.dont_write_bytecode = True
import props, checks
P = props.P
seen = set()
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert p["id"] not in seen, p["id"]; seen.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        o = {"id": p["id"], "title": p["title"], "statement": three(p["stmt"]), "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("state"): o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p.get("obs"): o["anchors"]["observe_at"] = p["obs"]
        o["anchors"]["hook_needed"] = None
        for fl in p["files"]: assert os.path.exists("/repo/" + fl), fl
        f.write(json.dumps(o) + "\n")
claimed = [p for p in P if p["id"] in checks.CHECKS]
man = {"version": 1, "setup_cmd": "python3 run.py setup",
       "hooks": {"guard": "LSX_VERIF", "enable": "no hooks were needed: the checks compile the unmodified sources of /repo (the define exists in name only)", "source_commits": []},
       "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                   "technique": "symbolic execution of the compiled LLVM IR, SMT (z3) deciding every branch, assertion and memory access" + ("; thread schedules as symbolic choices" if any(j.get("mt") for j in checks.CHECKS[p["id"]]["jobs"]) else ""),
                   "level": "model_checking", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in claimed],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["id"] not in checks.CHECKS],
       "notes": "bounded: every claim is for all values / schedules within the bounds stated in DESIGN.md and in the evidence files"}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
def bounds(pid):
    out = []
    for j in checks.CHECKS[pid]["jobs"]:
        d = j.get("defs", {}); t = j.get("thorough", {})
        s = f"`{j['src']}:{j['entry']}`" + (f" ({j['name']})" if j.get("name") else "")
        s += " " + ", ".join(f"{k}={v}" for k, v in d.items() if not isinstance(v, str) or len(v) < 30)
        ex = [f"{k}={j[k]}" for k in ("preempt", "spin") if k in j]
        if ex: s += " " + " ".join(ex)
        if t: s += " | thorough: " + ", ".join([f"{k}={v}" for k, v in t.get("defs", {}).items()] + [f"{k}={v}" for k, v in t.items() if k != "defs"])
        if j.get("thorough_only"): s += " (thorough only)"
        out.append(s.strip())
    return "; ".join(out)
import subprocess
known = json.load(open(D + "/known.json")) if os.path.exists(D + "/known.json") else []
fixed = []
for l in open(D + "/fixed.txt"):
    if not l.strip(): continue
    h, pr, what = l.strip().split(" ", 2)
    full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip()
    fixed.append({"id": "F-" + h, "property": pr, "status": "fixed", "commit": full, "what": what, "line": f"fixed: property={pr} {h} {what}"})
json.dump({"findings": known + fixed}, open(V + "/known_findings.json", "w"), indent=1)
with open(V + "/DESIGN.md", "w") as f:
    f.write(open(D + "/design_head.md").read())
    f.write("\n## Properties: how each one is decided\n\n(Generated from `gen/props.py` and `checks.py`.)\n")
    for p in P:
        f.write(f"\n### {p['id']} {p['title']}\n\n{p['stmt']}\n\n")
        if p["id"] in checks.CHECKS: f.write(f"*How:* {p['how']}\n\n*Bounds and scope:* {p['note']}\n\n*Harnesses:* {bounds(p['id'])}\n\n*Why tests cannot:* {p['why']}\n")
        else: f.write(f"*Not applicable:* {p['na']}\n")
    tail = open(D + "/design_tail.md").read()
    fx = "".join(f"- {x['property']} ({x['commit'][:7]}): {x['what']}\n" for x in fixed)
    kn = "".join(f"- {x['property']} `{x['id']}`: {x['what']}\n" for x in known) or "none\n"
    rows = "| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
    caught = json.load(open(D + "/caught.json")) if os.path.exists(D + "/caught.json") else {}
    for b in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
        m = json.load(open(f"{V}/seeded/{b}/meta.json")); rows += f"| {b} | {m['property']} | {m['what_it_breaks']} Needs: {m['needs']} | {caught.get(b, 'not run')} |\n"
    f.write("\n" + tail.replace("@FIXED@", fx).replace("@KNOWN@", kn).replace("@SEEDED@", rows))
print(len(P), "properties,", len(claimed), "claimed")
