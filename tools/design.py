"""Writes DESIGN.md from design_head.md, props.py, design_text.py, the check rules, the findings and the planted bugs."""
import ast
import json
import os
import sys

D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
import design_text  # noqa: E402
import props  # noqa: E402

out = [open(f"{D}/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    pid = p["id"]
    tree = ast.parse(open(f"{V}/checks/{pid}.py").read())
    rule = next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE")
    o, r, b = design_text.T.get(pid, ("", "", ""))
    out += [f"### {pid} {p['title']}", "", p["statement"], "", f"*Generated and counted:* {rule}", ""]
    if o:
        out += [f"*Oracle:* {o} *Why tests cannot:* {r} *Bounds:* {b}", ""]
out += [open(f"{D}/design_tail.md").read().rstrip(), "", "## Findings", "",
        "Genuine defects of IBM/aihwkit found by these checks (`known_findings.json`). *known* entries are not repaired (reason in the text) and are printed as KNOWN-FINDING on every run.", ""]
for f in json.load(open(f"{V}/known_findings.json"))["findings"]:
    out.append(f"* **{f['id']}** ({f['property']}, {f['status']}): {f['what'].replace('fixed: property=' + f['property'] + ' ', '')}")
out += ["", "## Planted bugs", "", "Each was written from a property statement and the code; `tools/seedverify.sh` confirmed that it builds, passes the stable tests, and that its demonstration separates it. "
        "Caught-by is the quick tier.", ""]
catch = json.load(open(f"{D}/catches.json")) if os.path.exists(f"{D}/catches.json") else {}
for s in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"* **{s}** ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} Caught by: {catch.get(s, '-')}.")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
