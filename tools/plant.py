#!/usr/bin/env python3
"""tools/plant.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], DEMO (python text)."""
import json, os, runpy, subprocess, sys
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/plantwt"
    subprocess.run(["rm", "-rf", wt]); subprocess.run(["git", "clone", "-q", "-s", "/repo", wt], check=True)
    for e in s["EDITS"]:
        p = f"{wt}/{e[0]}"
        t = open(p).read()
        n = t.count(e[1])
        nth = e[3] if len(e) > 3 else None
        if nth is None:
            assert n == 1, (s["ID"], e[0], n, e[1])
            t = t.replace(e[1], e[2])
        else:
            parts = t.split(e[1]); assert len(parts) > nth + 1, (n, nth)
            t = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
        open(p, "w").write(t)
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write("#!/bin/bash\n. /opt/vp/ext.sh >/dev/null 2>&1\ncd /repo && exec python -W ignore \"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n".replace('cd /repo && exec python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"', 'd=$(cd "$(dirname "$0")" && pwd)\ncd /repo && exec python -W ignore "$d/demo.py"'))
    open(f"{d}/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", wt])
    print(s["ID"], len(diff.splitlines()))
