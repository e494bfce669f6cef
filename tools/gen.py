"""Writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import table  # noqa: E402
from vlib import driver  # noqa: E402

have = driver.rules()
props, checks, nas, rows = [], [], [], []
for pid, title, stmt, over, text, why, files, mech, tech, how, note in table.P:
    assert len(title) <= 80, (pid, len(title))
    assert stmt.count(". ") <= 2, (pid, "more than three sentences")
    props.append({"id": pid, "title": title, "statement": stmt, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if pid in table.NA:
        nas.append({"property": pid, "reason": table.NA[pid]})
        continue
    if pid not in have:
        nas.append({"property": pid, "reason": "no check built yet"})
        continue
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": "static analysis: " + tech, "level": "other",
                   "level_note": "Decided from the source on every run; nothing is executed. " + note})
    rows.append(f"| {pid} | {title} | {how} | {note} |")
with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for x in props:
        fh.write(json.dumps(x) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --list", "checks": checks, "not_applicable": nas}, fh, indent=1)
    fh.write("\n")
d = os.path.join(HERE, "DESIGN.md")
if os.path.exists(d):
    s = open(d).read()
    a, b = "<!-- table -->\n", "<!-- end table -->"
    i, j = s.index(a) + len(a), s.index(b)
    t = "| id | property | how it is decided | bounds and trust |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n"
    t += "Not claimed:\n\n" + "\n".join(f"- {x['property']}: {x['reason']}" for x in nas) + "\n\n"
    s = s[:i] + t + s[j:]
    c = "<!-- seeded -->\n"
    seeds = os.path.join(HERE, "seeded")
    if os.path.isdir(seeds):
        t = "| change | caught by | what it breaks | needs |\n|---|---|---|---|\n"
        for x in sorted(os.listdir(seeds)):
            m = json.load(open(os.path.join(seeds, x, "meta.json")))
            cell = [str(m[k]).replace("|", "/").replace("\n", " ") for k in ("property", "what_it_breaks", "needs")]
            t += f"| {x} | {cell[0]} | {cell[1]} | {cell[2]} |\n"
        s = s[:s.index(c) + len(c)] + t
    open(d, "w").write(s)
print(len(checks), "checks", len(nas), "not applicable")
