#!/usr/bin/env python3
"""Inserts the text on stdin (a dict(...) entry, then a line ===, then the design_text entry) as a new property."""
import sys
a, b = sys.stdin.read().split("\n===\n")
for f, end, x in (("tools/props.py", "]\nNOT_CLAIMED = []", a), ("tools/design_text.py", "}", b)):
    s = open(f).read().rstrip()
    assert s.endswith(end)
    s = s[:-len(end)].rstrip() + "\n" + x.rstrip() + "\n" + end + "\n"
    open(f, "w").write(s)
